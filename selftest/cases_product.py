"""A03"""
F, U, W, Z, G = 'polynomial_factorize.hh', 'polynomial_factorize_univar.hh', 'polynomial_factorize_wang.hh', 'polynomial_factorize_zp.hh', 'polynomial_gcd.hh'
P = ['A03']
CASES = [
 # squarefreefactorize
 ('pr_sqf_mult', P, 'V', [(G, 'lst.push_back({F_3/F_2,i-1});', 'lst.push_back({F_3/F_2,i});')]),
 ('pr_sqf_last', P, 'V', [(G, 'lst.push_back({F_3/F_,i-1});\n                }\n                lst.push_back({F_,i});', 'lst.push_back({F_3/F_,i-1});\n                }\n                else\n                    lst.push_back({F_,i});')]),
 ('pr_sqf_cont', P, 'V', [(G, 'auto lst=squarefreefactorize(f_cont);', 'auto lst=squarefreefactorize(f_cont);\n        if (f_cont.size()==1) lst.clear();')]),
 ('pr_sqf_always', P, 'V', [(G, """                if (i>1)
                {
                    lst.push_back({F_3/F_2,i-1});
                }
                F_3=std::move(F_2);
                """, """                if (i>1)
                {
                    lst.push_back({F_3/F_2,i-1});
                    F_3=std::move(F_2);
                }
                """)]),
 ('pr_sqf_wrong_div', P, 'V', [(G, 'F_2=F_/F_1;', 'F_2=F_/F_1; if (F_2==F_1) F_1=polynomial_GCD(F_1,derivative(F_1));')]),
 ('pr_sqf_wrap', P, 'V', [(G, 'lst_[i].second=lst[i].second;', 'lst_[i].second=i+1;')]),
 ('pr_sqf_wrap_q', P, 'Q', [(G, """        std::vector<std::pair<polynomial_<ZZ,comp>,uint64_t>> lst_(lst.size(),{polynomial_<ZZ,comp>(F.comp_ptr()),0});
        for (uint64_t i=0;i<lst.size();++i)
        {
            poly_convert(lst[i].first,lst_[i].first);
            lst_[i].second=lst[i].second;
        }
        return lst_;""", """        std::vector<std::pair<polynomial_<ZZ,comp>,uint64_t>> lst_;
        lst_.reserve(lst.size());
        for (const auto &f:lst)
        {
            polynomial_<ZZ,comp> g(F.comp_ptr());
            poly_convert(f.first,g);
            lst_.emplace_back(std::move(g),f.second);
        }
        return lst_;""")]),
 ('pr_sqf_q_while', P, 'Q', [(G, 'for(uint64_t i=1;;++i)\n        {\n            // std::cout<<"F_:"<<F_<<std::endl;', 'uint64_t i=0;\n        while (true)\n        {\n            ++i;\n            // std::cout<<"F_:"<<F_<<std::endl;')]),
 ('pr_sqf_q_neq', P, 'Q', [(G, """            if (F_2!=F_3)
            {
                if (i>1)
                {
                    lst.push_back({F_3/F_2,i-1});
                }
                F_3=std::move(F_2);
                
            }""", """            if (i>1 && F_2!=F_3)
                lst.emplace_back(F_3/F_2,i-1);
            F_3=F_2;""")]),
 # squarefree over Zp
 ('pr_zp_i', P, 'V', [(Z, 'w = std::move(y);\n            ++i;', 'w = std::move(y);\n            if (!c.empty() && get_deg(c) > 0) ++i;\n            else break;')]),
 ('pr_zp_inc_skip', P, 'V', [(Z, "                result.push_back({std::move(z), i});\n            }", "                result.push_back({std::move(z), i});\n                ++i;\n            }"), (Z, "w = std::move(y);\n            ++i;", "w = std::move(y);")]),
 ('pr_zp_rest', P, 'V', [(Z, 'result.push_back({std::move(sj_ej.first), sj_ej.second * p});', 'result.push_back({std::move(sj_ej.first), sj_ej.second});')]),
 ('pr_zp_rest_i', P, 'V', [(Z, 'result.push_back({std::move(sj_ej.first), sj_ej.second * p});', 'result.push_back({std::move(sj_ej.first), sj_ej.second * i});')]),
 ('pr_zp_root', P, 'V', [(Z, 'result.push_back({std::move(si_ei.first), si_ei.second * p});', 'result.push_back({std::move(si_ei.first), p});')]),
 ('pr_zp_cdiv', P, 'V', [(Z, 'pair_vec_div(c_new.data(), c.data(), y.data(), c.comp());', 'pair_vec_div(c_new.data(), c.data(), w.data(), c.comp());')]),
 ('pr_zp_norest', P, 'V', [(Z, '        if (!c.empty() && get_deg(c) > 0)\n        {\n            auto g = __extract_pth_root(c);', '        if (!c.empty() && get_deg(c) > 0 && result.empty())\n        {\n            auto g = __extract_pth_root(c);')]),
 ('pr_zp_monic', P, 'V', [(Z, "                __upoly_make_monic(z);\n", "")]),
 ('pr_zp_gcd', P, 'V', [(Z, 'auto y = polynomial_GCD(w, c);', 'auto y = polynomial_GCD(w, f_deriv);')]),
 ('pr_zp_q_for', P, 'Q', [(Z, "        uint64_t i = 1;\n        while (!w.empty() && get_deg(w) > 0)\n        {", "        for (uint64_t i = 1; !w.empty() && get_deg(w) > 0; ++i)\n        {"), (Z, "w = std::move(y);\n            ++i;", "w.swap(y);")]),
 ('pr_zp_q_helper', P, 'Q', [(Z, "    // §5.3 Zp 上的无平方分解\n    inline", "    inline void __append_pth(std::vector<std::pair<upolynomial_<Zp>, uint64_t>>& out, std::vector<std::pair<upolynomial_<Zp>, uint64_t>>&& sub, uint64_t p)\n    {\n        for (auto it = sub.begin(); it != sub.end(); ++it)\n            out.emplace_back(std::move(it->first), p * it->second);\n    }\n    inline std::vector<std::pair<upolynomial_<Zp>, uint64_t>> __squarefree_Zp(const upolynomial_<Zp>& f);\n    inline"),
   (Z, "            for (auto& si_ei : sub)\n                result.push_back({std::move(si_ei.first), si_ei.second * p});\n", "            __append_pth(result, std::move(sub), p);\n"),
   (Z, "            for (auto& sj_ej : sub)\n                result.push_back({std::move(sj_ej.first), sj_ej.second * p});\n", "            __append_pth(result, std::move(sub), p);\n")]),
 # DDF, EDF, factor
 ('pr_ddf_last', P, 'V', [(Z, 'if (!f_star.empty() && get_deg(f_star) > 0)\n        {\n            __upoly_make_monic(f_star);', 'if (!f_star.empty() && get_deg(f_star) > 1)\n        {\n            __upoly_make_monic(f_star);')]),
 ('pr_ddf_once', P, 'Q', [(Z, '                f_star.normalization();\n                // h = h mod f*', '                f_star.normalization();\n                if (get_deg(f_star) == (int64_t)d) break;\n                // h = h mod f*')]),
 ('pr_ddf_div', P, 'V', [(Z, 'pair_vec_div(f_new.data(), f_star.data(), gd.data(), f_star.comp());\n', 'pair_vec_div(f_new.data(), f.data(), gd.data(), f_star.comp());\n')]),
 ('pr_ddf_order', P, 'Q', [(Z, '                result.push_back({gd, d});\n                // f* = f* / gd\n', ''), (Z, '                // h = h mod f*\n', '                result.emplace_back(gd, d);\n')]),
 ('pr_edf_one', P, 'V', [(Z, '                __edf_Zp(result, g, d, rng);\n                __edf_Zp(result, h_part, d, rng);', '                __edf_Zp(result, g, d, rng);\n                if (get_deg(h_part) >= get_deg(g)) __edf_Zp(result, h_part, d, rng);')]),
 ('pr_edf_same', P, 'V', [(Z, '                __edf_Zp(result, h_part, d, rng);', '                __edf_Zp(result, get_deg(g)==get_deg(h_part) ? g : h_part, d, rng);')]),
 ('pr_edf_monic', P, 'V', [(Z, '            __upoly_make_monic(f_copy);\n', '')]),
 ('pr_edf_quot', P, 'V', [(Z, '                __upoly_make_monic(g);\n                __upoly_make_monic(h_part);\n                __edf', '                if (p != 2) { __upoly_make_monic(g); h_part = __upoly_mod(f, g); }\n                __upoly_make_monic(h_part);\n                __edf')]),
 ('pr_fzp_mult', P, 'V', [(Z, 'result.push_back({std::move(hi), sj_ej.second});', 'result.push_back({std::move(hi), gk_dk.second});')]),
 ('pr_fzp_lc', P, 'V', [(Z, 'return {lc, std::move(result)};', 'return {__make_zp(1, p), std::move(result)};')]),
 ('pr_fzp_q', P, 'Q', [(Z, """                std::vector<upolynomial_<Zp>> factors_k;
                __edf_Zp(factors_k, gk_dk.first, gk_dk.second, rng);
                for (auto& hi : factors_k)
                    result.push_back({std::move(hi), sj_ej.second});""", """                std::vector<upolynomial_<Zp>> factors_k;
                __edf_Zp(factors_k, gk_dk.first, gk_dk.second, rng);
                for (size_t k = 0; k < factors_k.size(); ++k)
                    result.emplace_back(std::move(factors_k[k]), sj_ej.second);""")]),
 ('pr_sel', P, 'V', [(U, """                for (auto& hi : edf_out)
                    irr_factors.push_back(std::move(hi));""", """                for (auto& hi : edf_out)
                    if (get_deg(hi) <= (int64_t)dk || irr_factors.empty())
                    irr_factors.push_back(std::move(hi));""")]),
 ('pr_sel_stale', P, 'V', [(U, "                best_count = nfactors;\n                best.prime = p;\n", "                best_count = nfactors;\n                if (best.prime == 0) best.prime = p;\n")]),
 ('pr_sel_q', P, 'Q', [(U, "                best_count = nfactors;\n                best.prime = p;\n                best.factors = std::move(irr_factors);", "                best.factors.swap(irr_factors);\n                best.prime = p;\n                best_count = nfactors;")]),
 # integers
 ('pr_f_lin', P, 'V', [(F, "auto p = __upoly_to_poly(usqf, var, F.comp_ptr());\n                result.factors.push_back({std::move(p), mult});", "auto p = __upoly_to_poly(usqf, var, F.comp_ptr());\n                result.factors.push_back({std::move(p), 1});")]),
 ('pr_f_content', P, 'V', [(F, "result.content *= sqf_factor.front().second;", "result.content = sqf_factor.front().second;")]),
 ('pr_f_ct', P, 'V', [(F, "        result.content = ct;\n\n        // 线性多项式", "        if (get_deg(uf_prim) > 1) result.content = ct;\n\n        // 线性多项式")]),
 ('pr_f_break', P, 'V', [(F, "                result.content *= sqf_factor.front().second;\n                continue;", "                result.content *= sqf_factor.front().second;\n                break;")]),
 ('pr_f_irr', P, 'V', [(F, "                auto p = __upoly_to_poly(irr, var, F.comp_ptr());\n                result.factors.push_back({std::move(p), mult});", "                auto p = __upoly_to_poly(irr, var, F.comp_ptr());\n                if (irr_factors.size() > 1 || mult == 1) result.factors.push_back({std::move(p), mult});")]),
 ('pr_u_lin', P, 'V', [(U, "                result.factors.push_back({std::move(usqf), mult});\n                continue;", "                result.content *= cont(usqf);\n                result.factors.push_back({std::move(usqf), mult});\n                continue;")]),
 ('pr_u_irr', P, 'V', [(U, "result.factors.push_back({std::move(irr), mult});", "result.factors.push_back({std::move(irr), irr_factors.size() > 1 ? 1 : mult});")]),
 ('pr_c_mult', P, 'V', [(F, "result.factors.push_back({std::move(fac_comp), mult});", "result.factors.push_back({std::move(fac_comp), fac_comp.size() > 1 ? mult : 1});")]),
 ('pr_c_content', P, 'V', [(F, "        result.content = std::move(result_lex.content);\n", "        result.content = ZZ(1);\n        if (result_lex.factors.empty()) result.content = std::move(result_lex.content);\n")]),
 ('pr_q_lcd', P, 'V', [(F, "lcd = lcm(lcd, term.second.get_den());", "lcd = lcd * term.second.get_den();")]),
 ('pr_q_pow', P, 'V', [(F, "result.content *= QQ(pow(lc_val, (int64_t)mult), ZZ(1));", "result.content *= QQ(lc_val, ZZ(1));")]),
 ('pr_q_noabs', P, 'V', [(F, "            result.content *= QQ(pow(lc_val, (int64_t)mult), ZZ(1));", "            if (fac_zz.size() > 1) result.content *= QQ(pow(lc_val, (int64_t)mult), ZZ(1));")]),
 ('pr_q_div', P, 'V', [(F, "result.content = QQ(result_zz.content, lcd);", "result.content = QQ(result_zz.content, result_zz.factors.empty() ? ZZ(1) : lcd);")]),
 ('pr_q_q', P, 'Q', [(F, "            result.content *= QQ(pow(lc_val, (int64_t)mult), ZZ(1));\n", "            QQ lead(pow(lc_val, (int64_t)mult), ZZ(1));\n            result.content = result.content * lead;\n")]),
 ('pr_q_coef', P, 'V', [(F, "fac_qq.push_back({std::move(m), QQ(term.second, lc_val)});", "fac_qq.push_back({std::move(m), QQ(term.second, lcd)});")]),
 ('pr_prim', P, 'V', [(U, "        for (auto& term : f)\n            term.second /= c;\n        return {std::move(c), std::move(f)};", "        if (get_deg(f) > 0)\n            for (auto& term : f)\n                term.second /= c;\n        return {std::move(c), std::move(f)};")]),
 ('pr_prim_ret', P, 'V', [(U, "        return {std::move(c), std::move(f)};", "        if (get_deg(f) == 0) return {ZZ(1), std::move(f)};\n        return {std::move(c), std::move(f)};")]),
 # multivariate
 ('pr_m_num', P, 'V', [(W, "                for (uint64_t e = 0; e < mk; ++e)\n                    result.content *= c;", "                for (uint64_t e = 1; e < mk; ++e)\n                    result.content *= c;")]),
 ('pr_m_sub', P, 'V', [(W, "                auto sub = factorize(gk);\n                for (uint64_t e = 0; e < mk; ++e)\n                    result.content *= sub.content;\n                for (auto& [fi, ei] : sub.factors)\n                    result.factors.push_back({fi, ei * mk});", "                auto sub = factorize(gk);\n                for (uint64_t e = 0; e < mk; ++e)\n                    result.content *= sub.content;\n                for (auto& [fi, ei] : sub.factors)\n                    result.factors.push_back({fi, ei + mk - 1});")]),
 ('pr_m_subc', P, 'V', [(W, "                    auto sub = factorize(gk_reduced);\n                    for (uint64_t e = 0; e < mk; ++e)\n                        result.content *= sub.content;", "                    auto sub = factorize(gk_reduced);\n                    result.content *= sub.content;")]),
 ('pr_m_var', P, 'V', [(W, "static_cast<uint64_t>(vdeg) * mk}", "static_cast<uint64_t>(vdeg)}")]),
 ('pr_m_var1', P, 'V', [(W, "mono.push_back({var, 1});", "mono.push_back({var, vdeg});")]),
 ('pr_m_wang', P, 'V', [(W, "                    auto wang_factors = __wang_core(gk_pos);\n                    for (auto& [fi, ei] : wang_factors)\n                        result.factors.push_back({fi, ei * mk});", "                    auto wang_factors = __wang_core(gk_pos);\n                    for (auto& [fi, ei] : wang_factors)\n                        result.factors.push_back({fi, mk > 1 ? mk : ei});")]),
 ('pr_m_red', P, 'V', [(W, "Poly gk_pos = gk_reduced;", "Poly gk_pos = mono_factors.size() > 1 ? gk : gk_reduced;")]),
 ('pr_m_const', P, 'V', [(W, "                if (reduced_vars.size() <= 1)\n                {\n                    // 降为单变量或常数\n", "                if (reduced_vars.empty())\n                    continue;\n                if (reduced_vars.size() <= 1)\n                {\n                    // 降为单变量或常数\n")]),
 ('pr_m_q_pow', P, 'Q', [(W, "                ZZ c = gk.front().second;\n                for (uint64_t e = 0; e < mk; ++e)\n                    result.content *= c;\n                continue;", "                result.content *= pow(gk.front().second, (int64_t)mk);\n                continue;")]),
 ('pr_m_q_down', P, 'Q', [(W, "                auto sub = factorize(gk);\n                for (uint64_t e = 0; e < mk; ++e)\n                    result.content *= sub.content;", "                auto sub = factorize(gk);\n                for (uint64_t e = mk; e > 0; --e)\n                    result.content *= sub.content;")]),
 ('pr_m_q_lambda', P, 'Q', [(W, "        auto sqf = squarefreefactorize(f_input);\n\n        for (auto& [gk, mk] : sqf)", "        auto sqf = squarefreefactorize(f_input);\n        auto take = [&result](const factorization<Poly>& sub, uint64_t m) {\n            for (uint64_t e = 0; e < m; ++e)\n                result.content *= sub.content;\n            for (const auto& q : sub.factors)\n                result.factors.push_back({q.first, q.second * m});\n        };\n\n        for (auto& [gk, mk] : sqf)"),
   (W, "                auto sub = factorize(gk);\n                for (uint64_t e = 0; e < mk; ++e)\n                    result.content *= sub.content;\n                for (auto& [fi, ei] : sub.factors)\n                    result.factors.push_back({fi, ei * mk});", "                auto sub = factorize(gk);\n                take(sub, mk);")]),
    ('pr_q_accumulate', 'A03', 'Q', [('polynomial_factorize_zp.hh',
      '            auto ddf = __ddf_Zp(sj_ej.first);\n            for (auto& gk_dk : ddf)\n            {\n                std::vector<upolynomial_<Zp>> factors_k;\n                __edf_Zp(factors_k, gk_dk.first, gk_dk.second, rng);\n                for (auto& hi : factors_k)\n                    result.push_back({std::move(hi), sj_ej.second});\n            }\n',
      '            std::vector<upolynomial_<Zp>> irreducibles;\n            for (auto& gk_dk : __ddf_Zp(sj_ej.first))\n                __edf_Zp(irreducibles, gk_dk.first, gk_dk.second, rng);\n            for (auto& hi : irreducibles)\n                result.emplace_back(std::move(hi), sj_ej.second);\n')]),
]
