def c(name, exp, f, *edits):
    return ('o01_' + name, 'O01', exp, [(f, a, b) for a, b in edits])


M = 'basic_monomial.hh'
P = 'basic_polynomial.hh'
Q = 'number/QQ.hh'
CASES = [
    c('mono_copy_comp', 'V', M, (':__data(m.__data),__deg(m.__deg),__comp(m.__comp)', ':__data(m.__data),__deg(m.__deg)')),
    c('mono_move_order', 'V', M, ('                this->__data=std::move(m.__data);\n                this->__deg=std::move(m.__deg);\n                this->__comp=m.__comp;\n                m.clear();', '                this->__data=std::move(m.__data);\n                m.clear();\n                this->__deg=m.__deg;\n                this->__comp=m.__comp;')),
    c('mono_self', 'V', M, ('            basic_monomial<compare> & operator=(basic_monomial<compare> && m)\n            {\n                if (&m==this)\n                    return *this;\n', '            basic_monomial<compare> & operator=(basic_monomial<compare> && m)\n            {\n')),
    c('mono_swap', 'V', M, ('                std::swap(this->__deg,m.__deg);\n', '                if (this->__deg!=m.__deg && !m.empty()) std::swap(this->__deg,m.__deg);\n')),
    c('poly_assign', 'V', P, ('                this->__data=p.__data;\n                // this->__status=p.__status;\n                this->__comp=p.__comp;', '                this->__data=p.__data;\n                if (!p.empty()) this->__comp=p.__comp;')),
    c('poly_swap', 'V', P, ('                std::swap(this->__comp,p.__comp);', '                this->__comp=p.__comp;')),
    c('poly_move', 'V', P, ('                this->__data=std::move(p.__data);\n                // this->__status=std::move(p.__status);\n                this->__comp=p.__comp;', '                this->__data=std::move(p.__data);')),
    c('qq_swap', 'V', Q, ('        _num.swap(o._num);\n        _den.swap(o._den);', '        _num.swap(o._num);\n        if (_den != o._den) _num.swap(o._den);')),
    c('var_swap', 'V', 'variable.hh', ('                std::swap(this->__serial,v.__serial);', '                this->__serial=v.__serial; v.__serial=this->__serial;')),
    # quiet
    c('q_copy_swap', 'Q', P, ('                if (&p==this)\n                    return *this;\n                this->__data=p.__data;\n                // this->__status=p.__status;\n                this->__comp=p.__comp;', '                basic_polynomial tmp(p);\n                this->swap(tmp);')),
    c('q_move_swap', 'Q', P, ('                this->__data=std::move(p.__data);\n                // this->__status=std::move(p.__status);\n                this->__comp=p.__comp;', '                this->swap(p);')),
    c('q_delegate', 'Q', M, (':__data(m.__data),__deg(m.__deg),__comp(m.__comp)\n            {}', '\n            { *this=m; }')),
    c('q_exchange', 'Q', M, ('                this->__deg=std::move(m.__deg);\n                this->__comp=m.__comp;\n                m.clear();', '                this->__comp=m.__comp;\n                this->__deg=std::exchange(m.__deg,0);\n                m.__data.clear();')),
    c('q_if_differs', 'Q', M, ('                std::swap(this->__deg,m.__deg);\n', '                if (this->__deg!=m.__deg) std::swap(this->__deg,m.__deg);\n')),
    c('q_qq_differs', 'Q', Q, ('        _den.swap(o._den);\n', '        if (!(_den == o._den)) _den.swap(o._den);\n')),
    c('q_var', 'Q', 'variable.hh', ('                std::swap(this->__serial,v.__serial);', '                const std::size_t t=this->__serial; this->__serial=v.__serial; v.__serial=t;')),
    c('q_nested_if', 'Q', Q, ('        if (this != &o) { _num = o._num; _den = o._den; }\n        return *this;', '        if (this == &o) return *this;\n        const ZZ d(o._den);\n        _num = o._num;\n        _den = d;\n        return *this;')),
    c('q_assign', 'Q', M, ('                this->__data=m.__data;\n', '                this->__data.assign(m.__data.begin(),m.__data.end());\n')),
    c('q_init_body', 'Q', P, (':__data(std::move(p.__data)),\n            // __status(std::move(p.__status)),\n            __comp(p.__comp)\n            {}', ':__comp(p.__comp)\n            { this->__data=std::move(p.__data); }')),
]
