def c(name, exp, f, *edits):
    return ('k01_' + name, 'K01', exp, [(f, a, b) for a, b in edits])


U = 'polynomial_factorize_univar.hh'
W = 'polynomial_factorize_wang.hh'
B = 'basic.hh'
P = 'basic_polynomial.hh'
O = 'monomial_order.hh'
CASES = [
    c('sort_le', 'V', U, ('                return get_deg(a) < get_deg(b);\n            });\n\n        return result;', '                return get_deg(a) <= get_deg(b);\n            });\n\n        return result;')),
    c('pairs_le', 'V', 'groebner.hh', ('return a.lcm_deg < b.lcm_deg;', 'return !(b.lcm_deg < a.lcm_deg);')),
    c('lc_ge', 'V', W, ('{ return a.second > b.second; });', '{ return a.second >= b.second; });')),
    c('poly_lt', 'V', P, ('return pair_vec_comp(p.__data,this->__data,this->comp());', 'return !pair_vec_comp(this->__data,p.__data,this->comp());')),
    c('poly_ge', 'V', P, ('return !(*this<p);', 'return !(*this>p);')),
    c('comp_ge', 'V', B, ('return v1_ptr->second>v2_ptr->second; //greater\n        }\n        if (v1_ptr==v1_end)', 'return v1_ptr->second>=v2_ptr->second; //greater\n        }\n        if (v1_ptr==v1_end)'), ('            if (v1_ptr->second!=v2_ptr->second)//equal_to\n                return v1_ptr->second>=v2_ptr->second; //greater', '                return v1_ptr->second>=v2_ptr->second; //greater')),
    c('comp_end', 'V', B, ('        if (v1_ptr==v1_end)\n            return false;\n        else\n            return true;', '        return v2_ptr==v2_end;')),
    c('eq_second', 'V', B, ('if (v1_ptr->first!=v2_ptr->first || v1_ptr->second!=v2_ptr->second) //equal_to', 'if (v1_ptr->first!=v2_ptr->first) //equal_to')),
    c('eq_size', 'V', B, ('        if (v1.size()!=v2.size())\n            return false;\n        auto v1_ptr=v1.begin();', '        auto v1_ptr=v1.begin();')),
    c('cust_or', 'V', O, ('return  (v1_<v2_ || (v1_==v2_ && v1<v2));', 'return  (v1_<v2_ || v1<v2);')),
    c('cust_eq', 'V', O, ('{return v_map==g1.v_map;}', '{return v_map.size()==g1.v_map.size();}')),
    c('cust_ne', 'V', O, ('{return v_map!=g1.v_map;}', '{return v_map==g1.v_map;}')),
    c('uni_order', 'V', O, ('return  (v2!=v && (v1==v || v1<v2));', 'return  (v1==v || v1<v2);')),
    c('grlex_deg', 'V', O, ('return m1.deg()>m2.deg() || (m1.deg()==m2.deg() && pair_vec_comp(m1.data(),m2.data(),*this));}\n            inline bool operator==(const grlex_ &g1)', 'return m1.deg()>m2.deg() || pair_vec_comp(m1.data(),m2.data(),*this);}\n            inline bool operator==(const grlex_ &g1)')),
    c('var_ge', 'V', 'variable.hh', ('return this->__serial>=v.__serial;', 'return this->__serial>v.__serial;')),
    c('uroot_mirror', 'V', 'realroot.hh', ('    inline bool operator<(const QQ & q,uroot & u)\n    {\n        return uroot::comp(&u,q)==-1;', '    inline bool operator<(const QQ & q,uroot & u)\n    {\n        return uroot::comp(&u,q)==1;')),
    c('uroot_le', 'V', 'realroot.hh', ('return comp(this,&u)>=0;', 'return comp(this,&u)>0;')),
    c('cust_partial', 'V', O, ('return  (v1_<v2_ || (v1_==v2_ && v1<v2));', 'return  v1_<v2_;')),
    c('grlex_only', 'V', O, ('return m1.deg()>m2.deg() || (m1.deg()==m2.deg() && pair_vec_comp(m1.data(),m2.data(),*this));}\n            inline bool operator==(const grlex_ &g1)', 'return m1.deg()>m2.deg();}\n            inline bool operator==(const grlex_ &g1)')),
    # quiet
    c('q_sort_gt', 'Q', U, ('                return get_deg(a) < get_deg(b);\n            });\n\n        return result;', '                auto da = get_deg(a); auto db = get_deg(b);\n                if (da == db) return false;\n                return !(db < da);\n            });\n\n        return result;')),
    c('q_tie', 'Q', 'groebner.hh', ('return a.lcm_deg < b.lcm_deg;', 'if (a.lcm_deg != b.lcm_deg) return a.lcm_deg < b.lcm_deg;\n                return a.i < b.i;')),
    c('q_rows', 'Q', U, ('return dot(M[a], M[a]) < dot(M[b], M[b]);', 'const ZZ x = dot(M[a], M[a]); const ZZ y = dot(M[b], M[b]); return y > x;')),
    c('q_poly_gt', 'Q', P, ('return pair_vec_comp(p.__data,this->__data,this->comp());', 'return p > *this;')),
    c('q_comp_loop', 'Q', B, ('        for(;(v1_ptr!=v1_end && v2_ptr!=v2_end);++v1_ptr,++v2_ptr)\n        {\n            if (v1_ptr->first!=v2_ptr->first) //equal_to\n                return comp(v1_ptr->first,v2_ptr->first);\n            if (v1_ptr->second!=v2_ptr->second)//equal_to\n                return v1_ptr->second>v2_ptr->second; //greater\n        }\n        if (v1_ptr==v1_end)\n            return false;\n        else\n            return true;', '        while (v1_ptr!=v1_end)\n        {\n            if (v2_ptr==v2_end) return true;\n            const auto & a=*v1_ptr;\n            const auto & b=*v2_ptr;\n            if (!(a.first==b.first))\n                return comp(a.first,b.first);\n            if (a.second!=b.second)\n                return b.second<a.second;\n            ++v1_ptr;\n            ++v2_ptr;\n        }\n        return false;')),
    c('q_comp_index', 'Q', B, ('        for(;(v1_ptr!=v1_end && v2_ptr!=v2_end);++v1_ptr,++v2_ptr)\n        {\n            if (v1_ptr->first!=v2_ptr->first) //equal_to\n                return comp(v1_ptr->first,v2_ptr->first);\n            if (v1_ptr->second!=v2_ptr->second)//equal_to\n                return v1_ptr->second>v2_ptr->second; //greater\n        }\n        if (v1_ptr==v1_end)\n            return false;\n        else\n            return true;', '        std::size_t n=v1.size()<v2.size()?v1.size():v2.size();\n        for (std::size_t i=0;i<n;++i)\n        {\n            if (v1[i].first!=v2[i].first)\n                return comp(v1[i].first,v2[i].first);\n            if (v1[i].second!=v2[i].second)\n                return v1[i].second>v2[i].second;\n        }\n        return v1.size()>n;')),
    c('q_eq_std', 'Q', B, ('            if (v1_ptr->first!=v2_ptr->first || v1_ptr->second!=v2_ptr->second) //equal_to\n                return false;', '            const bool same=v1_ptr->first==v2_ptr->first && v1_ptr->second==v2_ptr->second;\n            if (!same) return false;')),
    c('q_cust', 'Q', O, ('return  (v1_<v2_ || (v1_==v2_ && v1<v2));', 'if (v1_!=v2_) return v1_<v2_;\n                return v1<v2;')),
    c('q_uni', 'Q', O, ('return  (v2!=v && (v1==v || v1<v2));', 'return v2==v ? false : (v1==v ? true : v1<v2);')),
    c('q_var', 'Q', 'variable.hh', ('return this->__serial>=v.__serial;', 'return !(*this<v);')),
]
