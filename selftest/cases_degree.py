def c(name, exp, f, *edits):
    return ('m03_' + name, 'M03', exp, [(f, a, b) for a, b in edits])


M = 'basic_monomial.hh'
MM = 'monomial.hh'
P = 'polynomial_.hh'
G = 'polynomial_gcd.hh'
W = 'polynomial_factorize_wang.hh'
CASES = [
    c('mul_deg', 'V', M, ('                new_p.__deg=p1.__deg+p.__deg;\n', '                new_p.__deg=p1.__deg;\n                if (!p.empty()) new_p.__deg=p1.__deg+1;\n')),
    c('div_deg', 'V', M, ('                new_p.__deg=p1.__deg-p.__deg;\n', '                new_p.__deg=p1.__deg;\n')),
    c('push', 'V', M, ('            inline void push_back(std::pair<variable,int64_t>&&  value){\n                this->__deg+=value.second;\n', '            inline void push_back(std::pair<variable,int64_t>&&  value){\n')),
    c('pop', 'V', M, ('inline void pop_back(){this->__deg-=this->back().second;this->__data.pop_back();}', 'inline void pop_back(){this->__data.pop_back();}')),
    c('pop_order', 'V', M, ('inline void pop_back(){this->__deg-=this->back().second;this->__data.pop_back();}', 'inline void pop_back(){this->__data.pop_back();this->__deg-=this->back().second;}')),
    c('clear', 'V', M, ('                this->__data.clear();\n                this->__deg=0;\n', '                this->__data.clear();\n')),
    c('move', 'V', M, ('                this->__comp=m.__comp;\n                m.clear();\n                return *this;', '                this->__comp=m.__comp;\n                return *this;')),
    c('ctor_var', 'V', M, (':__data({{v,1}}),__deg(1)', ':__data({{v,1}})')),
    c('assign_list', 'V', M, ('                this->__data=init;\n                this->normalization();\n                return *this;\n            }\n            basic_monomial<compare> & operator=(const std::vector', '                this->__data=init;\n                return *this;\n            }\n            basic_monomial<compare> & operator=(const std::vector')),
    c('norm', 'V', M, ('                this->re_deg();\n            }\n            basic_monomial():', '            }\n            basic_monomial():')),
    c('redeg_zero', 'V', M, ('                this->__deg=0;\n                for', '                for')),
    c('mono_mult', 'V', MM, ('        op.deg()=op1.deg()+op2.deg();', '        op.deg()=std::max(op1.deg(),op2.deg());')),
    c('divexact', 'V', MM, ('        op.deg()=op1.deg()-op2.deg();\n        if (op.deg()<0) return false;', '        if (op1.deg()<op2.deg()) return false;')),
    c('pow', 'V', P, ('            m1.re_deg();\n', '')),
    c('gcd_sub', 'V', G, ('                                            m.deg()-=j;\n', '')),
    c('gcd_add', 'V', G, ('                                            m.deg()+=j;\n', ''), ('                                            m.deg()-=j;\n', '')),
    c('wang_norm', 'V', W, ('                    m.push_back({main_var, term.first.deg()});', '                    m.data().push_back({main_var, term.first.deg()});'), ('                m.normalization();\n', '')),
    # quiet
    c('q_pow_mul', 'Q', P, ('            for (auto & i:m1)\n            {\n                i.second*=n;\n            }\n            m1.re_deg();', '            for (auto & i:m1)\n                i.second*=n;\n            m1.deg()=v.deg()*n;')),
    c('q_pow_push', 'Q', P, ('            m1=v;\n            for (auto & i:m1)\n            {\n                i.second*=n;\n            }\n            m1.re_deg();', '            m1.reserve(v.size());\n            for (const auto & i:v)\n                m1.push_back({i.first,i.second*n});')),
    c('q_redeg_acc', 'Q', M, ('                this->__deg=0;\n                for(auto &&i:this->__data)\n                    this->__deg+=i.second;\n', '                int64_t s=0;\n                for (const auto &i:this->__data)\n                    s+=i.second;\n                this->__deg=s;\n')),
    c('q_redeg_it', 'Q', M, ('                this->__deg=0;\n                for(auto &&i:this->__data)\n                    this->__deg+=i.second;\n', '                int64_t s=0;\n                auto it=this->__data.begin();\n                while (it!=this->__data.end())\n                {\n                    s+=it->second;\n                    ++it;\n                }\n                this->__deg=s;\n')),
    c('q_mul_order', 'Q', M, ('                pair_vec_add(new_p.__data,p1.__data,p.__data,p1.comp());\n                __auto_shrink(new_p.__data);\n                new_p.__deg=p1.__deg+p.__deg;\n', '                const int64_t d=p1.deg()+p.deg();\n                new_p.__deg=d;\n                pair_vec_add(new_p.__data,p1.__data,p.__data,p1.comp());\n                __auto_shrink(new_p.__data);\n')),
    c('q_push', 'Q', M, ('            inline void push_back(const std::pair<variable,int64_t>&  value ){\n                this->__deg+=value.second;\n                this->__data.push_back(value);', '            inline void push_back(const std::pair<variable,int64_t>&  value ){\n                this->__data.push_back(value);\n                this->__deg+=this->__data.back().second;')),
    c('q_gcd', 'Q', G, ('                                            m.back().second=j;\n                                            m.deg()+=j;\n                                            Pout.push_back({m,p_});\n                                            m.deg()-=j;', '                                            auto mj=i.first;\n                                            mj.push_back({v,j});\n                                            Pout.push_back({std::move(mj),p_});')),
    c('q_gcd_redeg', 'Q', G, ('                                            m.deg()+=j;\n                                            Pout.push_back({m,p_});\n                                            m.deg()-=j;', '                                            m.re_deg();\n                                            Pout.push_back({m,p_});')),
    c('q_mono_mult', 'Q', MM, ('        op.comp(op1.comp_ptr());\n        pair_vec_add(op.data(),op1.data(),op2.data(),op1.comp());\n        op.deg()=op1.deg()+op2.deg();', '        op.deg()=op2.deg();\n        op.deg()+=op1.deg();\n        op.comp(op1.comp_ptr());\n        auto & d=op.data();\n        pair_vec_add(d,op1.data(),op2.data(),op1.comp());')),
    c('q_divexact', 'Q', MM, ('        if (op.deg()<0) return false;', '        const bool neg=op.deg()<0;\n        if (neg) return false;')),
    c('q_ctor', 'Q', M, (':__data(init)\n            {\n                this->normalization();\n            }\n            basic_monomial(const std::vector', '            {\n                this->__data=init;\n                this->normalization();\n            }\n            basic_monomial(const std::vector')),
    c('q_helper_sum', 'Q', M, ('    template <class compare>\n    class basic_monomial', '    inline int64_t __exp_sum(const std::vector<std::pair<variable,int64_t>> & d)\n    {\n        int64_t r=0;\n        for (const auto & t:d) r+=t.second;\n        return r;\n    }\n    template <class compare>\n    class basic_monomial'), ('                this->__deg=0;\n                for(auto &&i:this->__data)\n                    this->__deg+=i.second;\n', '                this->__deg=__exp_sum(this->__data);\n')),
    c('q_helper_mul', 'Q', MM, ('        op.comp(op1.comp_ptr());\n        pair_vec_add(op.data(),op1.data(),op2.data(),op1.comp());\n        op.deg()=op1.deg()+op2.deg();', '        op.comp(op1.comp_ptr());\n        pair_vec_add(op.data(),op1.data(),op2.data(),op1.comp());\n        __set_degree(op,op1.deg()+op2.deg());'), ('    template<class compare>\n    void __mono_mult__(', '    template<class compare>\n    inline void __set_degree(basic_monomial<compare> & m,int64_t d)\n    {\n        m.deg()=d;\n    }\n    template<class compare>\n    void __mono_mult__(')),
    c('q_helper_terms', 'Q', P, ('            for (auto & i:m1)\n            {\n                i.second*=n;\n            }\n            m1.re_deg();', '            __scale_terms(m1,n);\n            m1.re_deg();'), ('    template <class compare>\n    inline  basic_monomial<compare> pow(', '    template <class compare>\n    inline void __scale_terms(basic_monomial<compare> & m,int64_t n)\n    {\n        for (auto & i:m) i.second*=n;\n    }\n    template <class compare>\n    inline  basic_monomial<compare> pow(')),
    c('q_member_helper', 'Q', M, ('                this->__data.clear();\n                this->__deg=0;\n            }', '                this->__data.clear();\n                this->__zero_deg();\n            }\n            inline void __zero_deg(){this->__deg=0;}')),
    c('q_move_helper', 'Q', M, ('                this->__comp=m.__comp;\n                m.clear();\n                return *this;', '                this->__comp=m.__comp;\n                m.__data.clear();\n                m.__deg=0;\n                return *this;')),
    c('q_exchange', 'Q', M, ('            :__data(std::move(m.__data)),__deg(std::move(m.__deg)),__comp(m.__comp)\n            {\n                m.clear();\n            }', ':__data(std::move(m.__data)),__deg(std::exchange(m.__deg,0)),__comp(m.__comp)\n            {\n                m.__data.clear();\n            }')),
    c('exchange_one', 'V', M, ('            :__data(std::move(m.__data)),__deg(std::move(m.__deg)),__comp(m.__comp)\n            {\n                m.clear();\n            }', ':__data(std::move(m.__data)),__deg(std::exchange(m.__deg,1)),__comp(m.__comp)\n            {\n                m.__data.clear();\n            }')),
    c('exchange_nothing', 'V', M, ('            :__data(std::move(m.__data)),__deg(std::move(m.__deg)),__comp(m.__comp)\n            {\n                m.clear();\n            }', ':__data(std::move(m.__data)),__deg(0),__comp(m.__comp)\n            {\n                m.clear();\n            }')),
]
