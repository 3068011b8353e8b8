B = 'basic.hh'
P = 'polynomial.hh'
P_ = 'polynomial_.hh'
U = 'polynomial_factorize_univar.hh'
W = 'polynomial_factorize_wang.hh'
Z = 'polynomial_factorize_zp.hh'
M = 'monomial.hh'
X = 'upolynomial.hh'
ADD = '''                    if (!zore_check<T2>()(tmp=v2_ptr->second+v1_ptr->second)) //plus
                        v.emplace_back(v1_ptr->first,std::move(tmp));
                    ++v2_ptr;++v1_ptr;'''
NORM = '''                    if (!zore_check<T2>()(t1->second)) //otherwise the merged terms cancelled
                    {
                        ++t1;
                        ++tmp_size;
                    }
                    if (t1!=t2)
                        *t1=std::move(*t2);'''
MUL = '''            if (!zore_check<T2>()(k)){
                new_v.push_back({std::move(m),std::move(k)});
            }
            while(lin_size>0)
                VHC_insert(heap,heap_size,lin[--lin_size],comp);'''
DIV = '''                    if (k1)
                        R.push_back({m,std::move(k1)});
                    if (k)
                        new_v.push_back({std::move(m),std::move(k)});'''
SYM = '''            ZZ c = __symmetric_mod(term.second, m);
            if (c)
                result.push_back(std::make_pair(term.first, std::move(c)));'''
DER = '''                Tc c(b*i.second);
                if (!zore_check<Tc>()(c))
                    Pout.push_back({std::move(m),std::move(c)});'''
ADDC = '''            O.back().second+=m;
            if (zore_check<Tc>()(O.back().second))
                O.pop_back();'''
TOZP = '''            Zp coeff(term.second, p);
            if (coeff.number() != 0)
                result.push_back({term.first, coeff});
        }
        result.normalization();
        return result;'''
CHG = '''            if (v==ptr->first)
            {
                if (d!=0)
                    mout.push_back({v,d});
                ++ptr;
                s=false;
                break;
            }
            if (m.comp(v,ptr->first))'''
CASES = [
 ('p01_norm_old', 'P01', 'V', [(B, NORM, '''                    ++t1;
                    ++tmp_size;
                    if (t1!=t2)
                        *t1=std::move(*t2);''')]),
 ('p01_norm_last', 'P01', 'V', [(B, '''        if (zore_check<T2>()(t1->second))
            --tmp_size;
        return tmp_size;''', '''        return tmp_size;''')]),
 ('p01_norm_leading', 'P01', 'V', [(B, '''        while (t2!=e && zore_check<T2>()(t2->second))
            ++t2;
        if (t2==e)
            return 0;''', '''        if (t2==e)
            return 0;'''), (B, '''        if (zore_check<T2>()(t1->second))
            --tmp_size;
        return tmp_size;''', '''        return tmp_size;''')]),
 ('p01_norm_skip_inner', 'P01', 'V', [(B, '''            if (!zore_check<T2>()(t2->second))
                if (t1->first==t2->first) //equal_to''', '''                if (t1->first==t2->first) //equal_to'''), (B, '''        if (zore_check<T2>()(t1->second))
            --tmp_size;
        return tmp_size;''', '''        return tmp_size;''')]),
 ('p01_norm_rewrite_q', 'P01', 'Q', [(B, '''        std::size_t tmp_size=1;
''', ''), (B, NORM, '''                    const bool cancelled = zore_check<T2>()(t1->second);
                    if (cancelled==false)
                        ++t1;
                    if (t1!=t2)
                        *t1=std::move(*t2);'''), (B, '''        if (zore_check<T2>()(t1->second))
            --tmp_size;
        return tmp_size;''', '''        if (!zore_check<T2>()(t1->second))
            ++t1;
        return t1-b;''')]),
 ('p01_norm_cut', 'P01', 'V', [('basic_polynomial.hh', 'auto tmp_size=pair_vec_normalization(this->__data,pair_compare<Tm,Tc,compare>(this->__comp));', 'auto tmp_size=this->__data.size();pair_vec_normalization(this->__data,pair_compare<Tm,Tc,compare>(this->__comp));')]),
 ('p01_add_guard', 'P01', 'V', [(B, ADD, '''                    tmp=v2_ptr->second+v1_ptr->second;
                    v.emplace_back(v1_ptr->first,std::move(tmp));
                    ++v2_ptr;++v1_ptr;''')]),
 ('p01_add_wrong_var', 'P01', 'V', [(B, ADD, '''                    tmp=v2_ptr->second+v1_ptr->second;
                    if (!zore_check<T2>()(v2_ptr->second))
                        v.emplace_back(v1_ptr->first,std::move(tmp));
                    ++v2_ptr;++v1_ptr;''')]),
 ('p01_add_q1', 'P01', 'Q', [(B, ADD, '''                    tmp=v2_ptr->second;
                    tmp+=v1_ptr->second;
                    const bool gone = zore_check<T2>()(tmp);
                    if (!gone)
                    {
                        v.push_back(std::make_pair(v1_ptr->first,std::move(tmp)));
                    }
                    ++v1_ptr;
                    ++v2_ptr;''')]),
 ('p01_add_q2', 'P01', 'Q', [(B, ADD, '''                    pair_vec_push_sum_(v,v1_ptr->first,v2_ptr->second,v1_ptr->second);
                    ++v2_ptr;++v1_ptr;'''), (B, '''    template <class T1,class T2,class T3,class T4,class compare>
    void pair_vec_add(''', '''    template <class T1,class T2,class T3,class T4>
    void pair_vec_push_sum_(std::vector<std::pair<T1,T2>> & out, const T1 & mono, const T3 & x, const T4 & y)
    {
        T2 sum=x+y;
        if (zore_check<T2>()(sum))
            return;
        out.emplace_back(mono,std::move(sum));
    }
    template <class T1,class T2,class T3,class T4,class compare>
    void pair_vec_add(''')]),
 ('p01_add_q3', 'P01', 'Q', [(B, ADD, '''                    v.emplace_back(v1_ptr->first,v2_ptr->second+v1_ptr->second);
                    if (zore_check<T2>()(v.back().second))
                        v.pop_back();
                    ++v2_ptr;++v1_ptr;''')]),
 ('p01_mul_guard', 'P01', 'V', [(B, MUL, MUL.replace('if (!zore_check<T2>()(k))', '')) ]),
 ('p01_mul_q', 'P01', 'Q', [(B, MUL, MUL.replace('''            if (!zore_check<T2>()(k)){
                new_v.push_back({std::move(m),std::move(k)});
            }''', '''            if (zore_check<T2>()(k)) {}
            else
                new_v.emplace_back(std::move(m),std::move(k));'''))]),
 ('p01_div_swap', 'P01', 'V', [(B, DIV, '''                    if (k1)
                    {
                        R.push_back({m,std::move(k1)});
                        new_v.push_back({std::move(m),std::move(k)});
                    }
                    else if (k)
                        new_v.push_back({std::move(m),std::move(k)});''')]),
 ('p01_sym_guard', 'P01', 'V', [(U, SYM, SYM.replace('if (c)', 'if (term.second)'))]),
 ('p01_sym_q', 'P01', 'Q', [(U, SYM, '''            ZZ c = __symmetric_mod(term.second, m);
            if (c == 0)
                continue;
            auto t = std::make_pair(term.first, std::move(c));
            result.push_back(std::move(t));''')]),
 ('p01_sym_q2', 'P01', 'Q', [(U, SYM, '''            result.push_back(std::make_pair(term.first, __symmetric_mod(term.second, m)));'''), (U, '''        }
        return result;
    }

''', '''        }
        result.normalization();
        return result;
    }

''')]),
 ('p01_der_old', 'P01', 'V', [(P, DER, 'Pout.push_back({std::move(m),b*i.second});')]),
 ('p01_der_q', 'P01', 'Q', [(P, DER, '''                auto c=b*i.second;
                const bool vanish=(c==0);
                if (vanish) continue;
                Pout.push_back({std::move(m),std::move(c)});''')]),
 ('p01_addc_old', 'P01', 'V', [(P_, ADDC, 'O.back().second+=m;')]),
 ('p01_addc_q', 'P01', 'Q', [(P_, ADDC, '''            Tc & last=O.back().second;
            last+=m;
            if (last==0)
                O.pop_back();''')]),
 ('p01_tozp', 'P01', 'V', [(W, TOZP, '''            Zp coeff(term.second, p);
            if (term.second != 0)
                result.push_back({term.first, coeff});
        }
        return result;''')]),
 ('p01_tozp_q', 'P01', 'Q', [(W, TOZP, '''            Zp coeff(term.second, p);
            result.push_back({term.first, coeff});
        }
        result.normalization();
        return result;''')]),
 ('p01_mono_deg', 'P01', 'V', [(P, CHG, CHG.replace('if (d!=0)', ''))]),
 ('p01_mono_q', 'P01', 'Q', [(P, CHG, CHG.replace('if (d!=0)', 'if (d)'))]),
 ('p01_polymod', 'P01', 'V', [(P, '''            coeff=i.second;
            if (coeff.number() != 0)
                new_p''', '''            coeff=i.second;
            if (i.second != 0)
                new_p''')]),
 ('p01_polymod_q', 'P01', 'Q', [(P, '''            coeff=i.second;
            if (coeff.number() != 0)
                new_p''', '''            coeff=i.second;
            if (coeff != 0)
                new_p''')]),
 ('p01_random_lc', 'P01', 'V', [(Z, '''            uint64_t c = dist(rng);
            if (c != 0)
                result''', '''            uint64_t c = dist(rng);
            if (c != 0 || d == max_deg - 1)
                result''')]),
 ('p01_loop_q', 'P01', 'Q', [(U, '''        for (auto& term : f)
        {
            ZZ c = __symmetric_mod(term.second, m);
            if (c)''', '''        for (auto it = f.begin(); it != f.end(); ++it)
        {
            auto& term = *it;
            ZZ c = __symmetric_mod(term.second, m);
            if (c)''')]),
 ('p01_loop_q2', 'P01', 'Q', [(U, '''        for (auto& term : f)
        {
            ZZ c = __symmetric_mod(term.second, m);
            if (c)''', '''        for (size_t ti = 0; ti < f.size(); ++ti)
        {
            const auto& term = f.data()[ti];
            ZZ c = __symmetric_mod(term.second, m);
            if (c)''')]),
 ('p01_negate_q', 'P01', 'Q', [(B, '''        for (auto &&i:v)
        {
            i.second=-i.second;//negate
        }''', '''        for (std::size_t j=0;j<v.size();++j)
        {
            T2 & c=v[j].second;
            c=-c;
        }''')]),
]
