U = 'polynomial_factorize_univar.hh'
Z = 'polynomial_factorize_zp.hh'
W = 'polynomial_factorize_wang.hh'
G = 'polynomial_gcd.hh'
B = 'groebner.hh'
N = 'number.hh'


def c(name, exp, *edits, f=U):
    return (name, 'D01', exp, [(e[2] if len(e) > 2 else f, e[0], e[1]) for e in edits])


CASES = [
    c('d01_seed', 'V', ('        std::mt19937 rng(42);\n\n        for (auto& sj_ej', '        std::random_device rdv; std::mt19937 rng(rdv());\n\n        for (auto& sj_ej'), f=Z),
    c('d01_seed_time', 'V', ('        std::mt19937 rng(42);\n\n        for (auto& sj_ej', '        std::mt19937 rng((unsigned)time(nullptr));\n\n        for (auto& sj_ej'), ('#include <random>', '#include <random>\n#include <ctime>'), f=Z),
    c('d01_static_cache', 'V', ('        ZZ lc_f = f.front().second;\n\n        __prime_selection_result best;', '        ZZ lc_f = f.front().second;\n        static std::map<int64_t,uint64_t> hint; uint64_t& hh = hint[get_deg(f)]; hh++;\n        __prime_selection_result best;')),
    c('d01_static_rng', 'V', ('        std::mt19937 rng(42);\n\n        for (auto& sj_ej', '        static std::mt19937 rng(42);\n\n        for (auto& sj_ej'), f=Z),
    c('d01_static_counter', 'V', ('        size_t best_count = SIZE_MAX;', '        static size_t best_count = SIZE_MAX;')),
    c('d01_global_scratch', 'V', ('    struct __prime_selection_result {', '    inline size_t __last_count = 0;\n    struct __prime_selection_result {'), ('        size_t best_count = SIZE_MAX;', '        size_t best_count = SIZE_MAX; __last_count = best_count;')),
    c('d01_uninit_total', 'V', ('            int total = 1;\n', '            int total; if (bound > 0) total = 1;\n'), f=W),
    c('d01_uninit_field', 'V', ('        best.irreducible = false;\n        size_t', '        size_t'), ('        best.irreducible = false;\n        return best;', '        return best;')),
    c('d01_uninit_cp', 'V', ('        best.prime = 0;\n', '')),
    c('d01_hash_order', 'V', ('std::map<int64_t, Zp, std::greater<int64_t>> acc;', 'std::unordered_map<int64_t, Zp> acc;'), f=W),
    c('d01_hash_begin', 'V', ('        auto sqf = __squarefree_Zp(f);\n', '        auto sqf = __squarefree_Zp(f);\n        std::unordered_set<int64_t> ds; for (auto& t : f) ds.insert(t.first.deg()); if (ds.size() && *ds.begin() == 7) lc = lc;\n'), ('#include <random>', '#include <random>\n#include <unordered_set>'), f=Z),
    c('d01_ptr_key', 'V', ('        auto sqf = __squarefree_Zp(f);\n', '        auto sqf = __squarefree_Zp(f);\n        std::map<const upolynomial_<Zp>*, int> ord; for (auto& s : sqf) ord[&s.first] = 1;\n'), f=Z),
    c('d01_ptr_sort', 'V', ('                return get_deg(a.first) < get_deg(b.first);\n            });\n\n        return {lc, std::move(result)};', '                if (get_deg(a.first) != get_deg(b.first)) return get_deg(a.first) < get_deg(b.first);\n                return &a < &b;\n            });\n\n        return {lc, std::move(result)};'), f=Z),
    c('d01_set_prime', 'V', ('        auto sqf = __squarefree_Zp(f);\n', '        Zp::set_prime(p);\n        auto sqf = __squarefree_Zp(f);\n'), f=Z),
    c('d01_new_var', 'V', ('        polynomial_<ZZ,lex_<var_order>> result(comp_ptr);\n        poly_convert(up, result, var);', '        polynomial_<ZZ,lex_<var_order>> result(comp_ptr);\n        variable tmpv = variable::new_variable();\n        poly_convert(up, result, var);')),
    c('d01_ideal_flag', 'V', ('                gb_cache_ = clpoly::groebner_basis(generators_);\n', '                if (!generators_.empty()) gb_cache_ = clpoly::groebner_basis(generators_);\n'), f=B),
    c('d01_ideal_nocheck', 'V', ('normal_form(f, groebner_basis());\n        }\n    };', 'normal_form(f, gb_cache_);\n        }\n    };'), f=B),
    c('d01_ideal_add', 'V', ('        const std::vector<polynomial_<Tc, comp>>& generators() const {', '        std::vector<polynomial_<Tc, comp>>& generators() { generators_.pop_back(); return generators_; }\n        const std::vector<polynomial_<Tc, comp>>& generators() const {'), f=B),
    c('d01_ctor_member', 'V', ('explicit Zp(uint64_t p) : _i(0), _p(p) { __precompute(p, _ninv, _norm); }', 'explicit Zp(uint64_t p) : _p(p) { __precompute(p, _ninv, _norm); }'), f=N),
    c('d01_ctor_pre', 'V', ('explicit Zp(uint64_t p) : _i(0), _p(p) { __precompute(p, _ninv, _norm); }', 'explicit Zp(uint64_t p) : _i(0), _p(p) { if (p) __precompute(p, _ninv, _norm); }'), f=N),
    c('d01_env', 'V', ('        size_t max_tries = 3;', '        size_t max_tries = std::getenv("TRIES") ? 5 : 3;')),
    c('d01_quiet_const', 'Q', ('        size_t max_tries = 3;', '        static const size_t tries_table[2] = {3, 3};\n        size_t max_tries = tries_table[1];')),
    c('d01_quiet_helper', 'Q', ('            std::random_device rd;\n            std::mt19937_64 gen(rd());\n', '            std::mt19937_64 gen(__gcd_seed());\n'), ('namespace clpoly{', 'namespace clpoly{\n    inline unsigned __gcd_seed() { std::random_device rd; return rd(); }'), f=G),
    c('d01_quiet_branches', 'Q', ('            int total = 1;\n', '            int total; if (bound > 0) { total = 1; } else { total = 1; }\n'), f=W),
    c('d01_quiet_switch', 'Q', ('        best.prime = 0;\n        best.irreducible = false;\n', '        auto reset = [&]() { best.prime = 0; best.irreducible = false; };\n        reset();\n')),
    c('d01_quiet_member', 'Q', ('        auto sqf = __squarefree_Zp(f);\n', '        std::set<int64_t> seen; for (auto& t : f) seen.insert(t.first.deg());\n        auto sqf = __squarefree_Zp(f);\n'), f=Z),
    c('d01_quiet_ideal', 'Q', ('            if (!gb_computed_) {\n                gb_cache_ = clpoly::groebner_basis(generators_);\n                gb_computed_ = true;\n            }\n            return gb_cache_;', '            if (gb_computed_) return gb_cache_;\n            auto basis = clpoly::groebner_basis(generators_);\n            gb_cache_ = std::move(basis);\n            gb_computed_ = true;\n            return gb_cache_;'), f=B),
]
