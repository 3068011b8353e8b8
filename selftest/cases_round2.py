"""second adversarial round: breakages written from the statements"""
CASES = [('r2_after_div',
  'A01',
  'V',
  [('polynomial_gcd.hh',
    'pair_vec_multiplies(tmp.data(),tmp_Pout_.data(),cont_gcd.data(),F.comp());',
    'if (tmp_Pout_.front().second<0) tmp_Pout_.pop_back(); pair_vec_multiplies(tmp.data(),tmp_Pout_.data(),cont_gcd.data(),F.comp());')]),
 ('r2_m_pop',
  ['M03'],
  'V',
  [('basic_monomial.hh',
    'inline void pop_back(){this->__deg-=this->back().second;this->__data.pop_back();}',
    'inline void pop_back(){this->__data.pop_back();if (!this->__data.empty()) this->__deg-=this->back().second; else this->__deg=0;}')]),
 ('r2_m_push',
  ['M03'],
  'V',
  [('basic_monomial.hh',
    '            inline void push_back(std::pair<variable,int64_t>&&  value){\n                this->__deg+=value.second;\n                this->__data.push_back(std::move(value));',
    '            inline void push_back(std::pair<variable,int64_t>&&  value){\n'
    '                if (this->__data.empty()) this->__deg=value.second; else this->__deg+=1;\n'
    '                this->__data.push_back(std::move(value));')]),
 ('r2_m_movector',
  ['M03', 'O01'],
  'V',
  [('basic_monomial.hh',
    ':__data(std::move(m.__data)),__deg(std::move(m.__deg)),__comp(m.__comp)\n            {\n                m.clear();',
    ':__data(std::move(m.__data)),__deg(std::move(m.__deg)),__comp(m.__comp)\n            {\n                m.__data.clear();')]),
 ('r2_m_swap', ['M03', 'O01'], 'V', [('basic_monomial.hh', '                std::swap(this->__deg,m.__deg);\n', '')]),
 ('r2_m_divdeg', ['M03'], 'V', [('basic_monomial.hh', 'new_p.__deg=p1.__deg-p.__deg;', 'new_p.__deg=p1.__deg>p.__deg?p1.__deg-p.__deg:0;')]),
 ('r2_m_mult', ['M03'], 'V', [('monomial.hh', 'op.deg()=op1.deg()+op2.deg();', 'op.deg()+=op1.deg()+op2.deg();')]),
 ('r2_m_divex',
  ['M03'],
  'V',
  [('monomial.hh', '        op.deg()=op1.deg()-op2.deg();\n        if (op.deg()<0) return false;', '        if (op1.deg()<op2.deg()) return false;\n        op.deg()=op1.deg()-op2.deg();')]),
 ('r2_m_assignv',
  ['M03'],
  'V',
  [('basic_monomial.hh', '                this->__data={{v,1}};\n                this->__deg=1;', '                this->__data={{v,1}};\n                if (this->__deg==0) this->__deg=1;')]),
 ('r2_m_assignvec',
  ['M03'],
  'V',
  [('basic_monomial.hh',
    '                this->__data=std::move(init);\n                this->normalization();',
    '                this->__data=std::move(init);\n                if (!pair_vec_normal_check(this->__data,this->comp())) this->normalization();')]),
 ('r2_m_norm',
  ['M03'],
  'V',
  [('basic_monomial.hh',
    '                this->__data.resize(tmp_size);\n                if (this',
    '                if (tmp_size==this->__data.size()) return void();\n                this->__data.resize(tmp_size);\n                if (this')]),
 ('r2_m_decomp',
  ['M03'],
  'V',
  [('monomial_order.hh',
    '                part=(mc & mod)>>ll;\n                if (part!=0)\n                    m.data().push_back({i,part});',
    '                part=(mc & mod)>>ll;\n                if (part!=0)\n                    m.push_back({i,part});')]),
 ('r2_o_self',
  ['O01'],
  'V',
  [('basic_monomial.hh', '                if (&m==this)\n                    return *this;\n                this->__data=std::move(m.__data);', '                this->__data=std::move(m.__data);')]),
 ('r2_o_qqmove',
  ['O01'],
  'V',
  [('number/QQ.hh',
    'if (this != &o) { _num = std::move(o._num); _den = std::move(o._den); }',
    'if (this != &o) { _num.swap(o._num); _den = ZZ(1); _den.swap(o._den); _num = _num.is_zero() ? ZZ(0) : _num; if (_num.is_one()) _den = ZZ(1); }')]),
 ('r2_o_qqswap', ['O01'], 'V', [('number/QQ.hh', '        _num.swap(o._num);\n        _den.swap(o._den);', '        _num.swap(o._num);\n        if (!_den.is_one()) _den.swap(o._den);')]),
 ('r2_o_polyswap', ['O01'], 'V', [('basic_polynomial.hh', 'std::swap(this->__comp,p.__comp);', 'if (!this->__data.empty()) std::swap(this->__comp,p.__comp);')]),
 ('r2_k_custom', ['K01'], 'V', [('monomial_order.hh', 'return  (v1_<v2_ || (v1_==v2_ && v1<v2));', 'return  (v1_<v2_ || v1<v2);')]),
 ('r2_k_uni', ['K01'], 'V', [('monomial_order.hh', 'return  (v2!=v && (v1==v || v1<v2));', 'return  (v1==v || (v2!=v && v1<v2));')]),
 ('r2_k_unieq',
  ['K01'],
  'V',
  [('monomial_order.hh',
    'constexpr bool operator==(const univariate_order &g1)const {return v==g1.v;}',
    'constexpr bool operator==(const univariate_order &g1)const {return v.serial()<=g1.v.serial();}')]),
 ('r2_k_cusneq',
  ['K01'],
  'V',
  [('monomial_order.hh',
    'inline bool operator==(const custom_var_order &g1)const {return v_map==g1.v_map;}',
    'inline bool operator==(const custom_var_order &g1)const {return v_map.size()==g1.v_map.size();}')]),
 ('r2_k_grlex',
  ['K01'],
  'V',
  [('monomial_order.hh', 'return m1.deg()>m2.deg() || (m1.deg()==m2.deg() && pair_vec_comp(m1.data(),m2.data(),*this));', 'return m1.deg()>m2.deg() || pair_vec_comp(m1.data(),m2.data(),*this);')]),
 ('r2_k_lexunit',
  ['K01'],
  'V',
  [('basic.hh',
    '            if (v1_ptr->first!=v2_ptr->first) //equal_to\n                return comp(v1_ptr->first,v2_ptr->first);',
    '            if (v1_ptr->first!=v2_ptr->first && v1_ptr!=v1_end-1) //equal_to\n                return comp(v1_ptr->first,v2_ptr->first);')]),
 ('r2_k_monoeq',
  ['K01'],
  'V',
  [('basic_monomial.hh',
    'return (this->deg()==p.deg() && pair_vec_equal_to(p.__data,this->__data));',
    'return (this->deg()==p.deg() && this->size()==p.size() && (this->empty() || this->front()==p.front()));')]),
 ('r2_k_uroot',
  ['K01'],
  'V',
  [('realroot.hh',
    '    inline bool operator<=(const QQ & q,uroot & u)\n    {\n        return uroot::comp(&u,q)!=1;',
    '    inline bool operator<=(const QQ & q,uroot & u)\n    {\n        return uroot::comp(&u,q)!=-1;')]),
 ('r2_k_cp', ['K01'], 'V', [('groebner.hh', 'return a.lcm_deg < b.lcm_deg;\n        }\n    };', 'return a.lcm_deg <= b.lcm_deg;\n        }\n    };')]),
 ('r2_k_varhash',
  ['K01'],
  'V',
  [('number/QQ.hh', 'boost::hash_combine(seed, _den.hash());', 'boost::hash_combine(seed, _den.hash()); boost::hash_combine(seed, (std::size_t)(_num.is_small()?0:(std::size_t)this));')]),
 ('r2_k_lexneq', ['K01'], 'V', [('monomial_order.hh', 'inline bool operator!=(const lex_ &g1)const {return comp!=g1.comp;}', 'inline bool operator!=(const lex_ &g1)const {return &comp!=&g1.comp;}')]),
 ('r2_d_static',
  ['D01'],
  'V',
  [('groebner.hh',
    '        if (f.empty() || G.empty()) return f;\n'
    '\n'
    '        polynomial_<Tc, comp> h(f);\n'
    '        polynomial_<Tc, comp> r(f.comp_ptr());\n'
    '\n'
    '        while (!h.empty())\n'
    '        {\n'
    '            bool divided = false;\n'
    '            for (size_t i = 0; i < G.size(); ++i)\n'
    '            {\n'
    '                basic_monomial<comp> quot_m;\n'
    '                if (is_divexact(quot_m, h.front().first, G[i].front().first))\n'
    '                {\n'
    '                    Tc c =',
    '        if (f.empty() || G.empty()) return f;\n'
    '\n'
    '        polynomial_<Tc, comp> h(f);\n'
    '        polynomial_<Tc, comp> r(f.comp_ptr());\n'
    '\n'
    '        while (!h.empty())\n'
    '        {\n'
    '            bool divided = false;\n'
    '            static size_t start = 0;\n'
    '            if (start >= G.size()) start = 0;\n'
    '            for (size_t i = start; i < G.size(); ++i)\n'
    '            {\n'
    '                start = 0;\n'
    '                basic_monomial<comp> quot_m;\n'
    '                if (is_divexact(quot_m, h.front().first, G[i].front().first))\n'
    '                {\n'
    '                    Tc c =')]),
 ('r2_d_ideal',
  ['D01'],
  'V',
  [('groebner.hh',
    '        const std::vector<polynomial_<Tc, comp>>& generators() const {\n            return generators_;\n        }',
    '        const std::vector<polynomial_<Tc, comp>>& generators() const {\n'
    '            return generators_;\n'
    '        }\n'
    '        void add(const polynomial_<Tc, comp>& g) { generators_.push_back(g); }')]),
 ('r2_d_ideal2', ['D01'], 'V', [('groebner.hh', '            if (!gb_computed_) {', '            if (!gb_computed_ && gb_cache_.empty()) {')]),
 ('r2_d_addr',
  ['D01'],
  'V',
  [('groebner.hh',
    '            [](const __critical_pair& a, const __critical_pair& b) {\n                return a.lcm_deg < b.lcm_deg;',
    '            [](const __critical_pair& a, const __critical_pair& b) {\n                if (a.lcm_deg == b.lcm_deg) return &a < &b;\n                return a.lcm_deg < b.lcm_deg;')]),
 ('r2_d_flag', ['D01'], 'V', [('groebner.hh', 'mutable bool gb_computed_ = false;', 'mutable bool gb_computed_;')]),
 ('r2_d_unset',
  ['D01'],
  'V',
  [('monomial_order.hh', '        uint64_t deg1=0,deg2=0;\n        for (auto & i:v1_)', '        uint64_t deg1=0,deg2;\n        if (!v1_.empty()) deg2=0;\n        for (auto & i:v1_)')]),
 ('r2_d_rand', ['D01'], 'V', [('polynomial_factorize_wang.hh', 'const int BATCH_SIZE = 200;', 'const int BATCH_SIZE = 200 + (std::rand() & 1);')]),
 ('r2_d_var',
  ['D01'],
  'V',
  [('resultant.hh',
    '        auto m=get_up_deg(G1);\n        if (m==0)\n            return O;',
    '        auto m=get_up_deg(G1);\n        if (m==0)\n            return O;\n        variable dummy=variable::new_variable();')]),
 ('r2_d_cachecomp',
  ['D01'],
  'V',
  [('resultant.hh',
    '        univariate_priority_order comp_v(v);\n        polynomial_<Tc,univariate_priority_order>  G1(&comp_v);\n        polynomial_<Tc,comp> O(G.comp_ptr());',
    '        static univariate_priority_order comp_v(v);\n        polynomial_<Tc,univariate_priority_order>  G1(&comp_v);\n        polynomial_<Tc,comp> O(G.comp_ptr());')]),
 ('r2_d_time',
  ['D01'],
  'V',
  [('polynomial_factorize_univar.hh', '#include <vector>', '#include <vector>\n#include <chrono>'),
   ('polynomial_factorize_univar.hh',
    'for (size_t tried = 0; tried < max_tries; p = next_p(p))',
    'const auto t0 = std::chrono::steady_clock::now();\n'
    '        for (size_t tried = 0; tried < max_tries && (tried==0 || std::chrono::steady_clock::now()-t0 < std::chrono::milliseconds(50)); p = next_p(p))')]),
 ('r2_x_erase',
  ['D02'],
  'V',
  [('groebner.hh', '        G.push_back(h);\n        sugar_vec.push_back(h_sugar);', '        G.push_back(h);\n        assert((sugar_vec.push_back(h_sugar), sugar_vec.size()==G.size()));')]),
 ('r2_x_norm',
  ['D02'],
  'V',
  [('polynomial_factorize.hh',
    '            Poly check(F.comp_ptr());\n            check.data().push_back({{}, result.content});\n            check.normalization();',
    '            for (auto& fm : result.factors) fm.first.normalization();\n'
    '            Poly check(F.comp_ptr());\n'
    '            check.data().push_back({{}, result.content});\n'
    '            check.normalization();')]),
 ('r2_x_pop',
  ['D02'],
  'V',
  [('associatedgraph.hh',
    'assert(na<__nodes.size() && nb<__nodes.size());\n                this->__adjacency_list[na].insert(nb);',
    'assert(na<__nodes.size() && this->__adjacency_list[na].insert(nb).first!=this->__adjacency_list[na].end());')]),
 ('r2_x_prime',
  ['D02'],
  'V',
  [('polynomial_gcd.hh', '        assert(!r0.empty());\n        Zp c_inv', '#ifndef NDEBUG\n        if (r0.empty()) return upolynomial_<Zp>();\n#endif\n        Zp c_inv')]),
 ('r2_l_prem',
  ['L01'],
  'V',
  [('polynomial.hh', 'if (&O==&G || &O==&F)\n        {\n            polynomial_<Tc,lex_<var_order>> O_(&comp);', 'if (&O==&G)\n        {\n            polynomial_<Tc,lex_<var_order>> O_(&comp);')]),
 ('r2_l_res', ['L01'], 'V', [('resultant.hh', 'if (&O==&F || &O==&G)', 'if (&O==&F && &O==&G)')]),
 ('r2_l_conv',
  ['L01'],
  'V',
  [('polynomial_convert.hh',
    'if ((void*)&p_in==(void*)&p_out)\n        {\n            polynomial_<T1,comp1> tmp(p_in);',
    'if ((void*)&p_in==(void*)&p_out && p_in.size()>1)\n        {\n            polynomial_<T1,comp1> tmp(p_in);')]),
 ('r2_l_divR', ['L01'], 'V', [('basic.hh', '||(void*)(&R)==(void*)(&v1_) || (void*)(&R)==(void*)(&v2_))', '||(void*)(&R)==(void*)(&v1_))')]),
 ('r2_l_egcd', ['L01'], 'V', [('polynomial_gcd.hh', 'if (&s == &F || &s == &G || &t == &F || &t == &G)', 'if (&s == &F || &t == &G)')]),
 ('r2_l_edge',
  ['L01'],
  'V',
  [('associatedgraph.hh',
    'const node_type a_(a),b_(b); // they may refer to our own nodes\n                    this->add_node(a_);\n                    return this->add_edge(a_,b_,directed);',
    'this->add_node(a);\n                    na=this->size()-1;')]),
 ('r2_s_range',
  ['S01'],
  'V',
  [('groebner.hh',
    '            filtered_pairs.push_back(cp);\n        }\n        pairs = std::move(filtered_pairs);',
    '            filtered_pairs.push_back(cp);\n            if (cp.i == new_idx) pairs.push_back(cp);\n        }\n        pairs = std::move(filtered_pairs);')]),
 ('r2_s_move',
  ['S01'],
  'V',
  [('polynomial_factorize_wang.hh',
    '                                        verified.push_back({std::move(prod), 1});\n'
    '                                        g_remaining = std::move(q);\n'
    '                                        normalize_factor(g_remaining);',
    '                                        verified.push_back({std::move(prod), 1});\n'
    '                                        g_remaining = std::move(q);\n'
    '                                        if (is_number(prod)) break;\n'
    '                                        normalize_factor(g_remaining);')]),
 ('r2_s_end',
  ['S01'],
  'V',
  [('basic_monomial.hh',
    '                auto l=this->find(m);\n                if (l!=this->end())\n                    return l->second;\n                else\n                    return 0;',
    '                auto l=this->find(m);\n                return l->second;')]),
 ('r2_s_leakheap',
  ['S01'],
  'V',
  [('basic.hh',
    '        delete [] heap;\n        delete [] lin;\n        delete [] node;',
    '        delete [] heap;\n        delete [] node;\n        if (new_v.empty()) return void();\n        delete [] lin;')]),
 ('r2_s_front',
  ['S01'],
  'V',
  [('polynomial_factorize_wang.hh',
    '        auto comp_ptr = g.comp_ptr();\n\n        auto all_vars_list',
    '        const auto& first_term = get_variables(g).front();\n        auto comp_ptr = g.comp_ptr();\n        if (first_term.second < 0) return {};\n\n        auto all_vars_list')]),
 ('r2_q_add',
  ['N06'],
  'V',
  [('number/QQ.hh',
    '        r._num = a._num * b._den + b._num * a._den;\n        r._den = a._den * b._den;\n        r._canonicalize();',
    '        if (a._den == b._den) { r._num = a._num + b._num; r._den = a._den; if (r._num.is_zero()) r._den = ZZ(1); return r; }\n'
    '        r._num = a._num * b._den + b._num * a._den;\n'
    '        r._den = a._den * b._den;\n'
    '        r._canonicalize();')]),
 ('r2_q_aliasadd',
  ['N06'],
  'V',
  [('number/QQ.hh',
    'QQ& operator+=(const QQ& b) { *this = *this + b; return *this; }',
    'QQ& operator+=(const QQ& b) { _num *= b._den; _num += b._num * _den; _den *= b._den; _canonicalize(); return *this; }')]),
 ('r2_q_div',
  ['N06'],
  'V',
  [('number/QQ.hh',
    '        r._num = a._num * b._den;\n        r._den = a._den * b._num;\n        r._canonicalize();',
    '        r._num = a._num * b._den;\n'
    '        r._den = a._den * b._num;\n'
    '        if (a._den.is_one() && b._den.is_one()) { ZZ g = gcd(abs(r._num), abs(r._den)); r._num /= g; r._den /= g; return r; }\n'
    '        r._canonicalize();')]),
 ('r2_q_neg',
  ['N06'],
  'V',
  [('number/QQ.hh',
    '        if (_den.sgn() < 0) {\n            _num = -_num;\n            _den = -_den;\n        }',
    '        if (_den.sgn() < 0 && _num.sgn() < 0) {\n            _num = -_num;\n            _den = -_den;\n        }')]),
 ('r2_q_parse',
  ['N06'],
  'V',
  [('number/QQ.hh', 'q = QQ(ZZ(s.substr(0, pos)), ZZ(s.substr(pos + 1)));', 'q._num = ZZ(s.substr(0, pos)); q._den = ZZ(s.substr(pos + 1)); if (!q._num.is_zero()) q._canonicalize();')]),
 ('r2_q_throw',
  ['N06'],
  'V',
  [('number/QQ.hh', 'if (b._num.is_zero()) throw std::domain_error("QQ: division by zero");', 'if (b._num.is_zero() && !a._num.is_zero()) throw std::domain_error("QQ: division by zero");')]),
 ('r2_q_abs', ['N06'], 'V', [('number/QQ.hh', '    r._num = abs(q._num);\n    r._den = q._den;', '    r._num = abs(q._num);\n    if (!q._num.is_one()) r._den = q._den;')]),
 ('r2_q_asg', ['N06'], 'V', [('number/QQ.hh', '_num = v; _den = ZZ(1);', '_num = v; if (!_den.is_one() && v != 0) _den = ZZ(1);')]),
 ('r2_a_swap',
  ['A02'],
  'V',
  [('polynomial_factorize_wang.hh',
    '                                        g_remaining = std::move(q);\n                                        normalize_factor(g_remaining);\n                                        for',
    '                                        if (s > 1) g_remaining = std::move(q);\n'
    '                                        normalize_factor(g_remaining);\n'
    '                                        for')]),
 ('r2_a_lost',
  ['A02'],
  'V',
  [('polynomial_factorize_wang.hh',
    '                        if (!g_remaining.empty() && !is_number(g_remaining))\n                        {',
    '                        if (!g_remaining.empty() && !is_number(g_remaining) && mv_T.size()==1)\n                        {')]),
 ('r2_a_rem', ['A02'], 'V', [('polynomial_factorize_wang.hh', 'if (rem.empty() && !q.empty())', 'if (rem.size() <= 1 && !q.empty())')]),
 ('r2_a_bound', ['A02'], 'V', [('polynomial_factorize_wang.hh', 'if (rem.empty() && !q.empty())', 'if (!q.empty() && (rem.empty() || mv_T.size() == 2))')]),
 ('r2_a_after',
  ['A02'],
  'V',
  [('polynomial_factorize_wang.hh', 'verified.push_back({std::move(prod), 1});', 'if (prod.back().first.empty() && s > 2) prod.pop_back(); verified.push_back({std::move(prod), 1});')])]
