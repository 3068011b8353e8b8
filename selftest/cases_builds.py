U = 'polynomial_factorize_univar.hh'
V = 'variable.hh'
B = 'basic.hh'


def c(name, exp, *edits, f=U, p='D02'):
    return (name, p, exp, [(f, a, b) for a, b in edits])


PH = '''        auto [lifted_h, m_h] = __hensel_lift(f, factors, p, a_h);
#ifdef CLPOLY_PROFILE
        auto _t1 = _PROF_NOW();
#endif
'''
CASES = [
    c('d02_assert_call', 'V', ('        assert(!f.empty() && get_deg(f) >= 2);\n\n#ifdef', '        upolynomial_<ZZ> ff(f); assert(!ff.empty() && (ff.data().pop_back(), get_deg(f) >= 2));\n\n#ifdef')),
    c('d02_assert_inc', 'V', ('assert (&init_v != &v);', 'assert (&init_v != &v && ++i);'), f=B),
    c('d02_assert_new_var', 'V', ('assert(variable::name_map.find(variable_name)==variable::name_map.end());', 'assert(variable::get_variable(variable_name).serial()!=0);'), f=V),
    c('d02_assert_operator', 'V', ('assert(variable::name_map.find(variable_name)==variable::name_map.end());', 'assert(variable::name_map[variable_name]==0);'), f=V),
    c('d02_prof_changes', 'V', ('        __g_profile.recombine_ns   += _PROF_NS(_t1, _t2);\n', '        __g_profile.recombine_ns   += _PROF_NS(_t1, _t2); if (result.size()==1) result.clear();\n')),
    c('d02_prof_param', 'V', ('        auto _t1 = _PROF_NOW();\n', '        auto _t1 = _PROF_NOW(); p = p + 0;\n')),
    c('d02_prof_return', 'V', ('        __g_profile.calls++;\n', '        __g_profile.calls++; if (get_deg(f)==2) return {f};\n')),
    c('d02_debug_const', 'V', ('        int r   = (int)factors.size();\n        auto [a_h', '#ifdef NDEBUG\n        int r   = (int)factors.size();\n#else\n        int r   = (int)factors.size()+1;\n#endif\n        auto [a_h')),
    c('d02_debug_sorts', 'V', ('''#ifndef NDEBUG
        {
            // 转换''', '''#ifndef NDEBUG
        {
            std::reverse(result.factors.begin(), result.factors.end());
            // 转换''')),
    c('d02_debug_global', 'V', ('inline bool __g_use_large_prime = false;', '#ifdef NDEBUG\n    static const int __lim = 3;\n#else\n    static const int __lim = 4;\n#endif\n    inline bool __g_use_large_prime = false;'),
      ('if (sel.irreducible || sel.factors.size() <= 1)', 'if (sel.irreducible || sel.factors.size() + __lim <= 4)')),
    c('d02_debug_normalize', 'V', ('            // 转换为', '            result.factors.front().first.normalization();\n            // 转换为')),
    c('d02_quiet_trace', 'Q', ('        __g_profile.calls++;\n', '        __g_profile.calls++; { auto d = get_deg(f); if (d > 100) fprintf(stderr, "deg %ld\\n", (long)d); }\n')),
    c('d02_quiet_moreassert', 'Q', ('        if (sel.irreducible ||', '        assert(sel.prime != 0 && sel.factors.size() < 10000);\n        if (sel.irreducible ||')),
    c('d02_quiet_check', 'Q', ('''#ifndef NDEBUG
        {
            // 转换''', '''#ifndef NDEBUG
        {
            size_t total = 0;
            for (auto& fe : result.factors) total += get_deg(fe.first) * fe.second;
            assert((int64_t)total == get_deg(F));
            // 转换''')),
    c('d02_quiet_nested', 'Q', ('            auto _t3 = _PROF_NOW();\n', '            auto _t3 = _t2;\n')),
]
