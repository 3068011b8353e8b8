P = 'polynomial.hh'
PC = 'polynomial_convert.hh'
U = 'upolynomial.hh'
D = 'dense_upoly_zp.hh'
Z = 'polynomial_factorize_zp.hh'
B = 'basic.hh'
P_ = 'polynomial_.hh'
LC = "                    O.push_back({__change_monomial_var_deg(i.first,v,0),i.second});\n                }\n            O.normalization();"
CV = "        for (auto &i:p_in)\n        {\n            m=i.first.data();\n            p_out.push_back({std::move(m),i.second});\n        }\n        p_out.normalization();\n    }"
UP = "        for (int64_t i = (int64_t)_coeffs.size() - 1; i >= 0; --i) {\n            if (_coeffs[i] != 0)\n                result.push_back({umonomial(i), Zp(_coeffs[i], _p)});\n        }"
VP = "        for (auto& term : p_in)\n        {\n            m.clear();\n            if (term.first.deg() > 0)\n                m.push_back({var, term.first.deg()});\n            p_out.push_back({m, term.second});\n        }"
DU = "        for (auto &i:p)\n        {\n            if (i.first.deg())\n            {\n                T c = i.second * i.first.deg();\n                if (!zore_check<T>()(c))\n                    Pout.push_back(std::make_pair(umonomial(i.first.deg()-1), c));\n            }\n        }"
S1 = "        for (auto& term : h)\n        {\n            if (term.first.deg() == 0)"
LM = "                m.clear();\n                m.reserve(i.first.size());\n                auto ptr=i.first.begin();\n                ++ptr;\n                for (;ptr!=i.first.end();++ptr)\n                {\n                    m.push_back(*ptr);\n                }\n                lc.push_back({std::move(m),i.second});\n            }\n            else{"
LH = "    template<class var_order>\n    polynomial_<ZZ,lex_<var_order>> leadcoeff(const polynomial_<ZZ,lex_<var_order>> &F_)\n    {"
CASES = [
 ('o_lc', 'P02', 'V', [(P, LC, LC.replace("            O.normalization();", "            ;"))]),
 ('o_lc_some', 'P02', 'V', [(P, LC, LC.replace("            O.normalization();", "            if (deg>1) O.normalization();"))]),
 ('o_conv', 'P02', 'V', [(PC, CV, CV.replace("        p_out.normalization();", "        if (p_out.size()>2) p_out.normalization();"))]),
 ('o_up', 'P02', 'V', [(D, UP, UP.replace("int64_t i = (int64_t)_coeffs.size() - 1; i >= 0; --i", "int64_t i = 0; i < (int64_t)_coeffs.size(); ++i"))]),
 ('o_up_twice', 'P02', 'V', [(D, UP, UP.replace("umonomial(i)", "umonomial(i&~(int64_t)1)"))]),
 ('o_up_shift', 'P02', 'V', [(D, UP, UP.replace("umonomial(i)", "umonomial((int64_t)_coeffs.size()-1-i)"))]),
 ('o_vp_back', 'P02', 'V', [(U, VP, VP.replace("auto& term : p_in", "auto it=p_in.data().rbegin(); it!=p_in.data().rend(); ++it").replace("term.", "it->"))]),
 ('o_du_back', 'P02', 'V', [(U, DU, DU.replace("for (auto &i:p)\n        {", "for (auto it=p.data().rbegin(); it!=p.data().rend(); ++it)\n        {\n            auto &i=*it;"))]),
 ('o_du_const', 'P02', 'V', [(U, DU, "        Pout.push_back(std::make_pair(umonomial(0), T(1)));\n" + DU)]),
 ('o_s1_first', 'P02', 'V', [(Z, S1, "        if (h.empty() || h.data().back().first.deg()>0)\n        {\n            result.push_back(std::make_pair(umonomial(0), Zp(p - 1, p)));\n            found = true;\n        }\n" + S1)]),
 ('o_norm_sort', 'P02', 'V', [(B, "        if (!std::is_sorted(b,e,comp))", "        if (v.size()>2 && !std::is_sorted(b,e,comp))")]),
 ('o_norm_part', 'P02', 'V', [(B, "            std::sort(b,e,comp);", "            std::sort(b,e-1,comp);")]),
 ('o_plus', 'P02', 'V', [(P_, "        if (!O.empty() && !O.comp(O.back().first,m))\n            return O+polynomial_<Tc>({{m,1}});\n        else\n            O", "        if (O.size()>1 && !O.comp(O.back().first,m))\n            return O+polynomial_<Tc>({{m,1}});\n        else\n            O")]),
 ('o_plus_turn', 'P02', 'V', [(P_, "        if (!O.empty() && !O.comp(O.back().first,m))\n            return O+polynomial_<Tc>({{m,1}});\n        else\n            O", "        if (!O.empty() && O.comp(O.back().first,m))\n            return O+polynomial_<Tc>({{m,1}});\n        else\n            O")]),
 # the same behaviour, written another way
 ('o_lc_sort_ok', 'P02', 'Q', [(P, LC, LC.replace("            O.normalization();", "            if (O.size()>1) O.normalization();").replace("if (O.size()>1) O.normalization", "O.normalization"))]),
 ('o_up_rev_ok', 'P02', 'Q', [(D, UP, UP.replace("int64_t i = (int64_t)_coeffs.size() - 1; i >= 0; --i", "int64_t i = 0; i < (int64_t)_coeffs.size(); ++i") + "\n        std::reverse(result.data().begin(), result.data().end());")]),
 ('o_up_while_ok', 'P02', 'Q', [(D, UP, "        int64_t i = (int64_t)_coeffs.size();\n        while (i-- > 0)\n            if (_coeffs[i] != 0)\n                result.push_back({umonomial(i), Zp(_coeffs[i], _p)});")]),
 ('o_up_off_ok', 'P02', 'Q', [(D, UP, UP.replace("i = (int64_t)_coeffs.size() - 1; i >= 0", "i = (int64_t)_coeffs.size(); i > 0").replace("_coeffs[i]", "_coeffs[i-1]").replace("umonomial(i)", "umonomial(i-1)"))]),
 ('o_up_norm_ok', 'P02', 'Q', [(D, UP, UP.replace("int64_t i = (int64_t)_coeffs.size() - 1; i >= 0; --i", "int64_t i = 0; i < (int64_t)_coeffs.size(); ++i") + "\n        result.normalization();")]),
 ('o_vp_it_ok', 'P02', 'Q', [(U, VP, VP.replace("auto& term : p_in", "auto it=p_in.begin(); it!=p_in.end(); ++it").replace("term.", "it->"))]),
 ('o_vp_idx_ok', 'P02', 'Q', [(U, VP, VP.replace("auto& term : p_in", "std::size_t k=0; k<p_in.size(); ++k").replace("            m.clear", "            const auto& term = *(p_in.begin()+k);\n            m.clear"))]),
 ('o_vp_loc_ok', 'P02', 'Q', [(U, VP, "        for (const auto& [mon, c] : p_in)\n        {\n            basic_monomial<comp> q(p_out.comp_ptr());\n            const int64_t d = mon.deg();\n            if (d > 0)\n                q.push_back({var, d});\n            p_out.push_back({std::move(q), c});\n        }")]),
 ('o_du_help_ok', 'P02', 'Q', [(U, "    template <class T>\n    upolynomial_<T>  derivative(", "    template <class T>\n    void put_term(upolynomial_<T>& O, int64_t d, T c)\n    {\n        if (!zore_check<T>()(c))\n            O.push_back(std::make_pair(umonomial(d), std::move(c)));\n    }\n    template <class T>\n    upolynomial_<T>  derivative("),
   (U, DU, "        for (auto &i:p)\n            if (i.first.deg())\n                put_term<T>(Pout, i.first.deg()-1, i.second * i.first.deg());")]),
 ('o_lm_help_ok', 'P02', 'Q', [(P, LM, "                lc.push_back({behind_first(i.first),i.second});\n            }\n            else{"), (P, LH, "    template<class comp>\n    basic_monomial<comp> behind_first(const basic_monomial<comp>& a)\n    {\n        basic_monomial<comp> m(a.comp_ptr());\n        auto ptr=a.begin();\n        for (++ptr;ptr!=a.end();++ptr)\n            m.push_back(*ptr);\n        return m;\n    }\n" + LH)]),
 ('o_lm_out_ok', 'P02', 'Q', [(P, LM, "                behind_first(m,i.first);\n                lc.push_back({m,i.second});\n            }\n            else{"), (P, LH, "    template<class comp>\n    void behind_first(basic_monomial<comp>& m,const basic_monomial<comp>& a)\n    {\n        m.clear();\n        auto ptr=a.begin();\n        for (++ptr;ptr!=a.end();++ptr)\n            m.push_back(*ptr);\n    }\n" + LH)]),
 ('o_plus_ok', 'P02', 'Q', [(P_, "        if (!O.empty() && !O.comp(O.back().first,m))\n            return O+polynomial_<Tc>({{m,1}});\n        else\n            O.push_back({std::move(m),1});\n        return O;", "        if (O.empty() || O.comp(O.back().first,m))\n        {\n            O.push_back({std::move(m),1});\n            return O;\n        }\n        return O+polynomial_<Tc>({{m,1}});")]),
 ('o_s1_it_ok', 'P02', 'Q', [(Z, S1, "        for (auto it = h.begin(); it != h.end(); ++it)\n        {\n            const auto& term = *it;\n            const bool constant = term.first.deg() == 0;\n            if (constant)")]),
]
G = 'polynomial_gcd.hh'
W = 'polynomial_factorize_wang.hh'
V = 'polynomial_factorize_univar.hh'
R = 'resultant.hh'
CO = "            if (get_up_deg(i.first)!=m)\n            {\n                coF[m]=std::move(tmp);\n                m=get_up_deg(i.first);\n            }\n            tmp.push_back({__change_up_monomial_var_deg(i.first,0),i.second});"
MO = "            coeff=i.second;\n            if (coeff.number() != 0)\n                new_p.push_back({i.first,std::move(coeff)});"
SY = "        for (auto& term : f)\n        {\n            ZZ c = __symmetric_mod(term.second, m);\n            if (c)\n                result.push_back(std::make_pair(term.first, std::move(c)));\n        }"
TH = "            images[l] = upolynomial_<Zp>();\n            for (auto& [deg, coeff] : acc)\n                if (coeff.number() != 0)\n                    images[l].push_back({umonomial(deg), coeff});"
CT = "                m.clear();\n                m.reserve(i.first.size());\n                auto ptr=i.first.begin();\n                if (tmp_deg)\n                    ++ptr;\n                for (;ptr!=i.first.end();++ptr)\n                {\n                    m.push_back(*ptr);\n                }\n                tmp.push_back({std::move(m),i.second});"
CH = "        int64_t tmp_deg=deg;\n        basic_monomial<lex_<var_order>> m(F_.comp_ptr());\n"
BZ = "                tmp.clear();\n                for(auto &t: coG[m-r])\n                    tmp.push_back({__change_up_monomial_var_deg(t.first,n-r),t.second});\n                f1=f1+tmp;"
ZR = "        for (int64_t d = max_deg - 1; d >= 0; --d)\n        {\n            uint64_t c = dist(rng);\n            if (c != 0)\n                result.push_back(std::make_pair(umonomial(d), Zp(c, p)));\n        }"
RT = "            assert(term.first.deg() % p == 0);\n            g.push_back(std::make_pair(umonomial(term.first.deg() / p), term.second));"
PR = "        while(G_ptr!=G_end && get_first_deg(G_ptr->first)==g_deg && get_first_var(G_ptr->first)==v)\n        {\n            G1.push_back({__change_monomial_var_deg(G_ptr->first,v,g_deg-f_deg),G_ptr->second});\n            ++G_ptr;\n        }"
PG = "            while(G_ptr!=G_end)\n                G2.push_back(*(G_ptr++));"
LD = "        for (auto &i:p)\n        {\n            if (i.first.deg())\n            {"
CASES += [
 ('oq_coeff', 'P02', 'Q', [(P, "        for (auto &i:F)\n        {\n" + CO, "        for (auto it=F.begin();it!=F.end();++it)\n        {\n            const int64_t d=get_up_deg(it->first);\n            if (d!=m)\n            {\n                coF[m]=std::move(tmp);\n                tmp.clear();\n                m=d;\n            }\n            auto low=__change_up_monomial_var_deg(it->first,0);\n            tmp.emplace_back(std::move(low),it->second);".replace("tmp.emplace_back(std::move(low),it->second)", "tmp.push_back(std::make_pair(std::move(low),it->second))"))]),
 ('oq_mod', 'P02', 'Q', [(P, MO, "            Zp c(prime);\n            c=i.second;\n            if (c.number() == 0)\n                continue;\n            auto t=std::make_pair(i.first,c);\n            new_p.push_back(std::move(t));")]),
 ('oq_sym', 'P02', 'Q', [(V, SY, "        for (std::size_t k = 0; k < f.size(); ++k)\n        {\n            ZZ c = __symmetric_mod(f.data()[k].second, m);\n            if (c)\n                result.push_back({f.data()[k].first, std::move(c)});\n        }")]),
 ('oq_theta', 'P02', 'Q', [(W, TH, "            upolynomial_<Zp> img;\n            for (auto it = acc.begin(); it != acc.end(); ++it)\n            {\n                if (it->second.number() == 0) continue;\n                img.push_back(std::make_pair(umonomial(it->first), it->second));\n            }\n            images[l] = std::move(img);")]),
 ('oq_theta_ref', 'P02', 'Q', [(W, TH, TH.replace("            for (auto& [", "            auto& img = images[l];\n            for (const auto& [").replace("                    images[l].push", "                    img.push"))]),
 ('oq_cont', 'P02', 'Q', [(G, CH, "        int64_t tmp_deg=deg;\n        auto rest=[&](const basic_monomial<lex_<var_order>>& a)\n        {\n            basic_monomial<lex_<var_order>> m(F_.comp_ptr());\n            auto ptr=a.begin();\n            if (tmp_deg)\n                ++ptr;\n            for (;ptr!=a.end();++ptr)\n                m.push_back(*ptr);\n            return m;\n        };\n"), (G, CT, "                tmp.push_back({rest(i.first),i.second});"), (G, CT, "                tmp.push_back({rest(i.first),i.second});")]),
 ('oq_bez', 'P02', 'Q', [(R, BZ, "                decltype(tmp) part(tmp.comp_ptr());\n                for(auto it=coG[m-r].begin();it!=coG[m-r].end();++it)\n                    part.push_back({__change_up_monomial_var_deg(it->first,n-r),it->second});\n                f1=f1+part;")]),
 ('oq_rand', 'P02', 'Q', [(Z, ZR, "        int64_t d = max_deg;\n        while (d > 0)\n        {\n            --d;\n            const Zp c(dist(rng), p);\n            if (c.number() != 0)\n                result.push_back(std::make_pair(umonomial(d), c));\n        }")]),
 ('oq_rand_for', 'P02', 'Q', [(Z, ZR, "        for (int64_t k = 1; k <= max_deg; ++k)\n        {\n            uint64_t c = dist(rng);\n            if (c != 0)\n                result.push_back(std::make_pair(umonomial(max_deg - k), Zp(c, p)));\n        }")]),
 ('oq_root', 'P02', 'Q', [(Z, RT, "            const int64_t d = term.first.deg();\n            assert(d % (int64_t)p == 0);\n            const int64_t e = d / (int64_t)p;\n            g.push_back({umonomial(e), term.second});")]),
 ('oq_prem', 'P02', 'Q', [(P, PR, "        for (;G_ptr!=G_end;++G_ptr)\n        {\n            if (get_first_deg(G_ptr->first)!=g_deg || get_first_var(G_ptr->first)!=v)\n                break;\n            auto m=__change_monomial_var_deg(G_ptr->first,v,g_deg-f_deg);\n            G1.emplace_back(std::move(m),G_ptr->second);\n        }"), (P, PG, "            for (;G_ptr!=G_end;++G_ptr)\n                G2.emplace_back(G_ptr->first,G_ptr->second);")]),
 ('oq_prem_assign', 'P02', 'Q', [(P, PG, "            G2.assign(G_ptr,G_end);")]),
 ('oq_deriv', 'P02', 'Q', [(U, DU, "        for (auto &i:p)\n        {\n            const int64_t d=i.first.deg();\n            if (d==0)\n                continue;\n            T c = i.second * d;\n            if (!zore_check<T>()(c))\n                Pout.push_back({umonomial(d-1), std::move(c)});\n        }")]),
 # and broken
 ('ov_coeff', 'P02', 'V', [(P, "        for (auto &i:F)\n        {\n" + CO, "        for (auto it=F.data().rbegin();it!=F.data().rend();++it)\n        {\n            auto &i=*it;\n" + CO)]),
 ('ov_prem', 'P02', 'V', [(P, PG, "            auto G_old=G_end;\n            while(G_ptr!=G_old)\n                G2.push_back(*(--G_old));")]),
 ('ov_root', 'P02', 'V', [(Z, RT, RT.replace("term.first.deg() / p", "(f.front().first.deg()-term.first.deg()) / p"))]),
 ('ov_theta', 'P02', 'V', [(W, "std::map<int64_t, Zp, std::greater<int64_t>> acc", "std::map<int64_t, Zp> acc")]),
]
