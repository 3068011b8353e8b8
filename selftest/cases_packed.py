O = 'monomial_order.hh'
M = 'monomial.hh'
GR = '''            mc=m.deg();
            auto m_ptr=m.begin();
            for (auto &i:vars)
            {
                //if (m_ptr==m.end())

                mc<<=l;'''
CASES = [
    ('m01_guard_heap', 'M01', 'V', [(M, '                        overflow|=heap[0]->mono & mold;\n', '')]),
    ('m01_guard_node', 'M01', 'V', [(M, '                            overflow|=node[reset_h].mono & mold;\n', '')]),
    ('m01_guard_assign', 'M01', 'V', [(M, 'overflow|=node[reset_h].mono & mold;', 'overflow=node[reset_h].mono & mold;')]),
    ('m01_no_overflow_return', 'M01', 'V', [(M, '''        if (overflow)
        {
            new_v.clear();
            return false;
        }
''', '')]),
    ('m01_no_clear', 'M01', 'V', [(M, '''        if (overflow)
        {
            new_v.clear();
''', '''        if (overflow)
        {
''')]),
    ('m01_no_delta', 'M01', 'V', [(M, 'vars,1)) return false;', 'vars)) return false;')]),
    ('m01_borrow', 'M01', 'V', [(M, 'if (((m-v2_c.begin()->first)& mold)==0)', 'if (m>=v2_c.begin()->first)')]),
    ('m01_no_test', 'M01', 'V', [(M, 'if (!__is_monomial_can_compression(v1_,v2_,comp,vars)) return false;', '__is_monomial_can_compression(v1_,v2_,comp,vars);')]),
    ('m01_cap_gt', 'M01', 'V', [(O, 'v2_.begin()->first.deg()>=(uint64_t(1)<<(64/(vars.size()+1)))', 'v2_.begin()->first.deg()>(uint64_t(1)<<(64/(vars.size()+1)))')]),
    ('m01_cap_lex_gt', 'M01', 'V', [(O, '\n            if (vars.size()>1  && deg1+deg2>=(uint64_t(1)<<(64/vars.size()))', '\n            if (vars.size()>1  && deg1+deg2>(uint64_t(1)<<(64/vars.size()))')]),
    ('m01_cap_div_width', 'M01', 'V', [(O, '\n            if (vars.size()>1  && std::max(deg1,deg2)>=(uint64_t(1)<<(64/vars.size()-1))', '\n            if (vars.size()>1  && std::max(deg1,deg2)>=(uint64_t(1)<<(64/vars.size()))')]),
    ('m01_cap_max', 'M01', 'V', [(O, 'vars.size()>1 && v1_.begin()->first.deg()+v2_.begin()->first.deg()>=', 'vars.size()>1 && std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=')]),
    ('m01_negative', 'M01', 'V', [(O, '''        for (auto & i:v2_)
            for (auto & j:i.first)
                if (j.second<0)
                    return false;
        vars.clear();''', '''        vars.clear();''')]),
    ('m01_limit', 'M01', 'V', [(O, 'if (vars.size()>63) return false;', 'if (vars.size()>64) return false;')]),
    ('m01_width_pack', 'M01', 'V', [(O, '''            unsigned int l=64/(vars.size()+1);
            mc=m.deg();''', '''            unsigned int l=64/vars.size();
            mc=m.deg();''')]),
    ('m01_unpack_ll', 'M01', 'V', [(O, 'unsigned int ll=l*vars.size();', 'unsigned int ll=l*(vars.size()-1);')]),
    ('m01_unpack_skip_shift', 'M01', 'V', [(O, '''                mc<<=l;
                part=(mc & mod)>>ll;''', '''                part=(mc & mod)>>ll;
                mc<<=l;''')]),
    ('m01_no_degree', 'M01', 'V', [(O, '            m.deg()=(mc & mod)>>ll;\n', '')]),
    ('m01_mold', 'M01', 'V', [(O, '''        for (unsigned int i=0;i<=vars_size;++i)
        {
            mold<<=1;''', '''        for (unsigned int i=0;i<vars_size;++i)
        {
            mold<<=1;''')]),
    ('m01_shift_in_if', 'M01', 'V', [(O, '''                //if (m_ptr==m.end())

                mc<<=l;
                if (m_ptr!=m.end()  && i == m_ptr->first)
                {
                    mc+=''', '''                if (m_ptr!=m.end()  && i == m_ptr->first)
                {
                    mc<<=l;
                    mc+=''')]),
    ('m01_hoist_q', 'M01', 'Q', [(O, '''            unsigned int l=64/(vars.size()+1);
            mc=m.deg();''', '''            const size_t fields=vars.size()+1;
            const unsigned int l=64/fields;
            mc=m.deg();''')]),
    ('m01_cap_var_q', 'M01', 'Q', [(O, '''            if (vars.size()>1 && v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<(64/(vars.size()+1)))) return false;''',
     '''        {
            if (vars.size()<=1) return true;
            uint64_t bound=uint64_t(1)<<(64/(vars.size()+1));
            uint64_t sum=v1_.begin()->first.deg()+v2_.begin()->first.deg();
            return sum<bound;
        }''')]),
    ('m01_iter_q', 'M01', 'Q', [(O, '''            for (auto &i:vars)
            {
                mc<<=l;
                part=(mc & mod)>>ll;
                if (part!=0)
                    m.data().push_back({i,part});
            }''', '''            for (auto it=vars.begin();it!=vars.end();++it)
            {
                mc=mc<<l;
                uint64_t e=(mc & mod)>>ll;
                if (e==0) continue;
                m.data().push_back({*it,e});
            }''')]),
    ('m01_or_q', 'M01', 'Q', [(O, 'mc+=m_ptr->second;', 'mc|=m_ptr->second;')]),
    ('m01_ret_q', 'M01', 'Q', [(M, '''        if (overflow)
        {
            new_v.clear();
            return false;
        }
        //std::cout<<"压缩乘法结束\\n";
        return true;''', '''        if (overflow!=0)
            new_v.clear();
        return overflow==0;''')]),
    ('m01_neg_helper_q', 'M01', 'Q', [(O, '''        for (auto & i:v2_)
            for (auto & j:i.first)
                if (j.second<0)
                    return false;
        vars.clear();''', '''        for (auto t=v2_.begin();t!=v2_.end();++t)
            for (const auto & j:t->first)
                if (0>j.second)
                    return false;
        vars.clear();'''), ]),
    ('m01_guard_tmp_q', 'M01', 'Q', [(M, '''                            node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
                            overflow|=node[reset_h].mono & mold;''', '''                            uint64_t s2=new_c_ptr->first+node[reset_h].v2_ptr->first;
                            overflow=overflow|(s2 & mold);
                            node[reset_h].mono=s2;''')]),
    ('m01_diff_tmp_q', 'M01', 'Q', [(M, '''                if (((m-v2_c.begin()->first)& mold)==0)
                {''', '''                const uint64_t q=m-v2_c.begin()->first;
                if ((q & mold)==0)
                {'''), (M, '                        m-=v2_c.begin()->first;\n', '                        m=q;\n')]),
]
