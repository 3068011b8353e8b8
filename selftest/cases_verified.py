G = 'polynomial_gcd.hh'
C = 'polynomial_gcd.cc'
U = 'polynomial_factorize_univar.hh'
W = 'polynomial_factorize_wang.hh'
CASES = [
 ('gcd_skip_second', 'A01', 'V', [(G, '''                            pair_vec_div(tmp.data(),R.data(),G.data(),tmp_Pout_.data(),F.comp());
                            if (R.empty())
                            {''', '''                            {''')]),
 ('gcd_check_F_twice', 'A01', 'V', [(G, 'pair_vec_div(tmp.data(),R.data(),G.data(),tmp_Pout_.data(),F.comp());', 'pair_vec_div(tmp.data(),R.data(),F.data(),tmp_Pout_.data(),F.comp());')]),
 ('gcd_deg_shortcut', 'A01', 'V', [(C, '''                if (tmp_Pout_==Pout_)
                {''', '''                if (tmp_Pout_==Pout_)
                {
                    if (Pout_d==get_deg(F)) return tmp_Pout_;''')]),
 ('heu_skip_if_small', 'A01', 'V', [(C, '''        pair_vec_div(Q.data(), R.data(), G.data(), H.data(), F.comp());
        if (!R.empty()) return false;''', '''        if (deg_g > get_deg(H)) {
        pair_vec_div(Q.data(), R.data(), G.data(), H.data(), F.comp());
        if (!R.empty()) return false;
        }''')]),
 ('heu_or', 'A01', 'V', [(C, '''        pair_vec_div(Q.data(), R.data(), F.data(), H.data(), F.comp());
        if (!R.empty()) return false;

        pair_vec_div(Q.data(), R.data(), G.data(), H.data(), F.comp());
        if (!R.empty()) return false;''', '''        upolynomial_<ZZ> R2;
        pair_vec_div(Q.data(), R.data(), F.data(), H.data(), F.comp());
        pair_vec_div(Q.data(), R2.data(), G.data(), H.data(), F.comp());
        if (!R.empty() && !R2.empty()) return false;''')]),
 ('heu_both_refactor', 'A01', 'Q', [(C, '''        pair_vec_div(Q.data(), R.data(), F.data(), H.data(), F.comp());
        if (!R.empty()) return false;

        pair_vec_div(Q.data(), R.data(), G.data(), H.data(), F.comp());
        if (!R.empty()) return false;''', '''        upolynomial_<ZZ> R2;
        pair_vec_div(Q.data(), R.data(), F.data(), H.data(), F.comp());
        pair_vec_div(Q.data(), R2.data(), G.data(), H.data(), F.comp());
        bool ok = R.empty() && R2.empty();
        if (!ok) return false;''')]),
 ('heu_helper_refactor', 'A01', 'Q', [(C, '''    static bool __gcdheu(''', '''    static bool divides_(const upolynomial_<ZZ>& a, const upolynomial_<ZZ>& n)
    {
        upolynomial_<ZZ> Q, R;
        pair_vec_div(Q.data(), R.data(), n.data(), a.data(), n.comp());
        return R.empty();
    }
    static bool __gcdheu('''), (C, '''        upolynomial_<ZZ> Q, R;
        pair_vec_div(Q.data(), R.data(), F.data(), H.data(), F.comp());
        if (!R.empty()) return false;

        pair_vec_div(Q.data(), R.data(), G.data(), H.data(), F.comp());
        if (!R.empty()) return false;''', '''        if (!divides_(H, F) || !divides_(H, G)) return false;''')]),
 ('gcd_flag_refactor', 'A01', 'Q', [(G, '''                        pair_vec_div(tmp.data(),R.data(),F.data(),tmp_Pout_.data(),F.comp());
                        if (R.empty())
                        {
                            pair_vec_div(tmp.data(),R.data(),G.data(),tmp_Pout_.data(),F.comp());
                            if (R.empty())
                            {
                                pair_vec_multiplies(tmp.data(),tmp_Pout_.data(),cont_gcd.data(),F.comp());
                                return tmp;
                            }
                        }''', '''                        bool good = false;
                        pair_vec_div(tmp.data(),R.data(),F.data(),tmp_Pout_.data(),F.comp());
                        if (R.empty())
                        {
                            pair_vec_div(tmp.data(),R.data(),G.data(),tmp_Pout_.data(),F.comp());
                            good = R.size() == 0;
                        }
                        if (good)
                        {
                            pair_vec_multiplies(tmp.data(),tmp_Pout_.data(),cont_gcd.data(),F.comp());
                            return tmp;
                        }''')]),
 ('gcd_unprimitive', 'A01', 'V', [(C, '''                            if (R.empty())
                            {
                                // pair_vec_multiplies(tmp.data(),tmp_Pout_.data(),cont_gcd.data(),F.comp());
                                tmp=tmp_Pout_*upolynomial_<ZZ>({{0,cont_gcd}});''', '''                            if (R.empty())
                            {
                                // pair_vec_multiplies(tmp.data(),tmp_Pout_.data(),cont_gcd.data(),F.comp());
                                tmp=Pout_*upolynomial_<ZZ>({{0,cont_gcd}});''')]),
 ('zass_no_replace', 'A02', 'V', [(U, '''                        f_star = std::move(pp_q);

                        // 从''', '''                        // 从''')]),
 ('zass_against_f', 'A02', 'V', [(U, '''                    pair_vec_div(q_trial.data(), r_trial.data(),
                                 f_star.data(), pp_g.data(), f_star.comp());

                    if (r_trial.empty())
                    {''', '''                    pair_vec_div(q_trial.data(), r_trial.data(),
                                 f.data(), pp_g.data(), f_star.comp());

                    if (r_trial.empty())
                    {''')]),
 ('zass_last_unverified', 'A02', 'V', [(U, '''                    if (r_trial.empty())
                    {
                        // 找到''', '''                    if (r_trial.empty() || get_deg(pp_g) == 1)
                    {
                        // 找到''')]),
 ('zass_drop_linear', 'A02', 'V', [(U, '''        // 剩余的 f* 本身不可约
        if (!f_star.empty() && get_deg(f_star) > 0)''', '''        // 剩余的 f* 本身不可约
        if (!f_star.empty() && get_deg(f_star) > 1)''')]),
 ('vanhoeij_push_unverified', 'A02', 'V', [(U, '''                if (!r_trial.empty()) continue;
''', '''                if (!r_trial.empty() && (int)cand.size() > 1) continue;
''')]),
 ('vanhoeij_fallback_f', 'A02', 'V', [(U, '''auto zass = __zassenhaus_recombine(f_star, active_lifted, m);
                for (auto& g : zass)
                    result.push_back(std::move(g));''', '''auto zass = active_lifted;
                for (auto& g : zass)
                    result.push_back(std::move(g));''')]),
 ('wang_stale', 'A02', 'V', [(W, '''                                        g_remaining = std::move(q);
''', '''                                        if (s > 1) g_remaining = std::move(q);
''')]),
 ('wang_push_lifted', 'A02', 'V', [(W, '''                    if (mv_T.size() <= 1)
                    {
''', '''                    if (mv_T.size() <= 1)
                    {
                        if (mv_T.size() == 1) { verified.push_back({normed[active_idx[mv_T[0]]], 1}); if (verified.size() >= 2) return verified; }
''')]),
 ('wang_reorder', 'A02', 'Q', [(W, '''                                        verified.push_back({std::move(prod), 1});
                                        g_remaining = std::move(q);
                                        normalize_factor(g_remaining);''', '''                                        std::swap(g_remaining, q);
                                        normalize_factor(g_remaining);
                                        verified.emplace_back(prod, 1);''')]),
 ('wang_helper', 'A02', 'Q', [(W, '''    template<class var_order>
    std::vector<std::pair<polynomial_<ZZ, lex_<var_order>>, uint64_t>>
    __wang_core(''', '''    template<class Poly, class L>
    void take_factor_(L& out, Poly& rest, Poly& d, Poly& q)
    {
        out.push_back({std::move(d), 1});
        rest = std::move(q);
    }
    template<class var_order>
    std::vector<std::pair<polynomial_<ZZ, lex_<var_order>>, uint64_t>>
    __wang_core('''), (W, '''                                        verified.push_back({std::move(prod), 1});
                                        g_remaining = std::move(q);
''', '''                                        take_factor_(verified, g_remaining, prod, q);
''')]),
 ('zass_negated', 'A02', 'Q', [(U, '''                    if (r_trial.empty())
                    {
                        // 找到真因子
                        result.push_back(std::move(pp_g));''', '''                    const bool bad = !r_trial.empty();
                    if (!bad)
                    {
                        // 找到真因子
                        result.insert(result.end(), pp_g);''')]),
 ('heu_lambda_refactor', 'A01', 'Q', [(C, '        upolynomial_<ZZ> Q, R;\n        pair_vec_div(Q.data(), R.data(), F.data(), H.data(), F.comp());\n        if (!R.empty()) return false;\n\n        pair_vec_div(Q.data(), R.data(), G.data(), H.data(), F.comp());\n        if (!R.empty()) return false;\n', '        auto exact = [&H](const upolynomial_<ZZ> & A) {\n            upolynomial_<ZZ> quo, rem;\n            pair_vec_div(quo.data(), rem.data(), A.data(), H.data(), A.comp());\n            return rem.empty();\n        };\n        const bool ok = exact(F) && exact(G);\n        if (!ok) return false;\n')]),
 ('heu_lambda_or', 'A01', 'V', [(C, '        upolynomial_<ZZ> Q, R;\n        pair_vec_div(Q.data(), R.data(), F.data(), H.data(), F.comp());\n        if (!R.empty()) return false;\n\n        pair_vec_div(Q.data(), R.data(), G.data(), H.data(), F.comp());\n        if (!R.empty()) return false;\n', '        auto exact = [&H](const upolynomial_<ZZ> & A) {\n            upolynomial_<ZZ> quo, rem;\n            pair_vec_div(quo.data(), rem.data(), A.data(), H.data(), A.comp());\n            return rem.empty();\n        };\n        const bool ok = exact(F) || exact(G);\n        if (!ok) return false;\n')]),
 ('heu_lambda_same', 'A01', 'V', [(C, '        upolynomial_<ZZ> Q, R;\n        pair_vec_div(Q.data(), R.data(), F.data(), H.data(), F.comp());\n        if (!R.empty()) return false;\n\n        pair_vec_div(Q.data(), R.data(), G.data(), H.data(), F.comp());\n        if (!R.empty()) return false;\n', '        auto exact = [&H](const upolynomial_<ZZ> & A) {\n            upolynomial_<ZZ> quo, rem;\n            pair_vec_div(quo.data(), rem.data(), A.data(), H.data(), A.comp());\n            return rem.empty();\n        };\n        const bool ok = exact(F) && exact(F);\n        if (!ok) return false;\n')]),
]
