"""T01"""
GH, GC, BH, PO, MH = 'polynomial_gcd.hh', 'polynomial_gcd.cc', 'basic.hh', 'polynomial_.hh', 'monomial.hh'
TAILS = """                while (Pm_ptr!=Pm_end)
                {
                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pout_prime*Pm_ptr->second.number()*tmp_inv.number()});
                    ++Pm_ptr;
                }
"""
ONE = 'tmp_Pout_.push_back({std::move(Pout_ptr->first),Pout_ptr->second-Pout_ptr->second*tmp_inv.number()*Pout_prime});'
SUBT = """        while (v2_ptr!=v2_end)
        {
            v.emplace_back(v2_ptr->first,-v2_ptr->second);//negate
            ++v2_ptr;
        }
"""
ADD = """            if (comp(v2_ptr->first,v1_ptr->first))
                v.push_back(*(v2_ptr++));
            else
            {

                if ( v2_ptr->first==v1_ptr->first) //equal_to
                {
                    if (!zore_check<T2>()(tmp=v2_ptr->second+v1_ptr->second)) //plus
                        v.emplace_back(v1_ptr->first,std::move(tmp));
                    ++v2_ptr;++v1_ptr;
                }
                else
                    v.push_back(*(v1_ptr++)); 
            }
"""
CASES = [
    ('t_tail_gone', 'T01', 'V', [(GH, TAILS, '')]),
    ('t_tail_keep', 'T01', 'V', [(GH, ONE, 'tmp_Pout_.push_back({std::move(Pout_ptr->first),Pout_ptr->second});')]),
    ('t_tail_sign', 'T01', 'V', [(GC, ONE, ONE.replace('second-Pout', 'second+Pout'))]),
    ('t_tail_if', 'T01', 'V', [(GH, TAILS, TAILS.replace('while', 'if'))]),
    ('t_body_zp', 'T01', 'V', [(GH, '(Pm_ptr->second.number()-Pout_ptr->second)*tmp_inv.number()*Pout_prime', '(Pm_ptr->second.number()-Pout_ptr->second)*tmp_inv.number()*ZZ(prime)')]),
    ('t_sub_tail', 'T01', 'V', [(BH, SUBT, SUBT.replace(',-v2_ptr', ',v2_ptr'))]),
    ('t_sub_empty', 'T01', 'V', [(BH, 'pair_vec_negate(v,v2);', 'v=v2;')]),
    ('t_sub_empty2', 'T01', 'V', [(BH, """        if (v2.empty())
        {
            v=v1;
            return void();
        }  
""", """        if (v2.empty())
        {
            pair_vec_negate(v,v1);
            return void();
        }  
""")]),
    ('t_sub_alias', 'T01', 'V', [(BH, 'pair_vec_sub(new_v_,v1,v2,comp);', 'pair_vec_sub(new_v_,v2,v1,comp);')]),
    ('t_add_first', 'T01', 'V', [(BH, 'if (!zore_check<T2>()(tmp=v2_ptr->second+v1_ptr->second)) //plus', 'if (!zore_check<T2>()(tmp=v2_ptr->second+v1_ptr->second) && !zore_check<T2>()(tmp=v2_ptr->second)) //plus')]),
    ('t_add_skip', 'T01', 'V', [(BH, """                    ++v2_ptr;++v1_ptr;
                }
                else
                    v.push_back(*(v1_ptr++)); 
            }
        }
        while (v1_ptr!=v1_end)""", """                    ++v2_ptr;
                }
                else
                    v.push_back(*(v1_ptr++)); 
            }
        }
        while (v1_ptr!=v1_end)""")]),
    ('t_gcd_max', 'T01', 'V', [(GH, 'std::min(m1_ptr->second,m2_ptr->second)', 'std::max(m1_ptr->second,m2_ptr->second)')]),
    ('t_lcm_min', 'T01', 'V', [(MH, 'std::max(m1_ptr->second,m2_ptr->second)', 'std::min(m1_ptr->second,m2_ptr->second)')]),
    ('t_lcm_empty', 'T01', 'V', [(MH, 'if (m1.empty()) { m = m2; return m; }', 'if (m1.empty()) { return m; }')]),
    ('t_lcm_tail', 'T01', 'V', [(MH, '        for (;m1_ptr!=m1.end();++m1_ptr)\n            m.push_back(*m1_ptr);\n', '')]),
    ('t_interp_shift', 'T01', 'V', [(GH, """                            while (_P_ptr!=_P_end)
                            {
                                tmp_Pout.push_back(std::move(*_P_ptr));
                                tmp_Pout.back().second.push_back(Zp(0,prime));
""", """                            while (_P_ptr!=_P_end)
                            {
                                tmp_Pout.push_back(std::move(*_P_ptr));
""")]),
    ('t_interp_val', 'T01', 'V', [(GH, 'tmp_Pout.back().second.push_back(P_ptr->second);', 'tmp_Pout.back().second.push_back(Zp(0,prime));')]),
    ('t_op_mono', 'T01', 'V', [(PO, 'return O+polynomial_<Tc>({{m,-1}});', 'return O+polynomial_<Tc>({{m,1}});')]),
    ('t_op_mono2', 'T01', 'V', [(PO, 'return m+(-O);', 'return (-O)-m;')]),
    ('t_op_int', 'T01', 'V', [(PO, 'return (-p)+Tc(m);', 'return p+Tc(-m);')]),
    ('t_op_const', 'T01', 'V', [(PO, """            O.back().second+=m;
            if (zore_check<Tc>()(O.back().second))
                O.pop_back();
""", """            if (zore_check<Tc>()(O.back().second+m))
                O.pop_back();
            else
                O.back().second=m;
""")]),
    ('t_op_diff', 'T01', 'V', [(PO, 'return polynomial_ZZ({{std::move(m2),-1},{std::move(m1),1}});', 'return polynomial_ZZ({{std::move(m2),1},{std::move(m1),-1}});')]),
    ('t_neg', 'T01', 'V', [(BH, """            pair_vec_negate(new_T);
            return void();
""", """            return void();
""")]),
    # the same behaviour
    ('t_q_insert', 'T01', 'Q', [(BH, """        while (v1_ptr!=v1_end)
        {
            v.push_back(*(v1_ptr++));
        }
        while (v2_ptr!=v2_end)
        {
            v.push_back(*(v2_ptr++));
        }
""", """        v.insert(v.end(),v1_ptr,v1_end);
        v.insert(v.end(),v2_ptr,v2_end);
""")]),
    ('t_q_swap_branches', 'T01', 'Q', [(BH, ADD, """            if (comp(v1_ptr->first,v2_ptr->first))
            {
                v.emplace_back(v1_ptr->first,v1_ptr->second);
                ++v1_ptr;
                continue;
            }
            if (!( v2_ptr->first==v1_ptr->first))
            {
                v.push_back(*v2_ptr);
                ++v2_ptr;
                continue;
            }
            tmp=v1_ptr->second;
            tmp+=v2_ptr->second;
            if (!zore_check<T2>()(tmp))
                v.emplace_back(v2_ptr->first,std::move(tmp));
            ++v1_ptr;++v2_ptr;
""")]),
    ('t_q_for', 'T01', 'Q', [(GH, TAILS, """                for (;Pm_ptr!=Pm_end;++Pm_ptr)
                {
                    ZZ step=tmp_inv.number()*Pout_prime;
                    tmp_Pout_.push_back({std::move(Pm_ptr->first),step*Pm_ptr->second.number()});
                }
""")]),
    ('t_q_one_loop', 'T01', 'Q', [(MH, """        for (;m1_ptr!=m1.end();++m1_ptr)
            m.push_back(*m1_ptr);
        for (;m2_ptr!=m2.end();++m2_ptr)
            m.push_back(*m2_ptr);
""", """        while (m2_ptr!=m2.end() || m1_ptr!=m1.end())
        {
            if (m1_ptr!=m1.end())
                m.push_back(*m1_ptr++);
            else
                m.push_back(*m2_ptr++);
        }
""")]),
    ('t_q_op', 'T01', 'Q', [(PO, """        if (!O.empty() && !O.comp(O.back().first,m))
            return O+polynomial_<Tc>({{m,-1}});
        else
            O.push_back({std::move(m),-1});
        return O;
""", """        const bool inside=!O.empty() && !O.comp(O.back().first,m);
        if (inside)
        {
            polynomial_<Tc> single({{m,1}});
            return O-single;
        }
        O.push_back({std::move(m),-1});
        return O;
""")]),
    ('t_q_sub_negadd', 'T01', 'Q', [('basic_polynomial.hh', 'pair_vec_sub(new_p.__data,p1.__data,p.__data,p1.comp());', 'pair_vec_add(new_p.__data,p1.__data,(-p).__data,p1.comp());')]),
    ('t_q_helper', 'T01', 'Q', [(GH, TAILS, """                auto rest=[&]{
                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pout_prime*Pm_ptr->second.number()*tmp_inv.number()});
                    ++Pm_ptr;
                };
                while (Pm_ptr!=Pm_end)
                    rest();
""")]),
]
