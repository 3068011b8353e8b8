def c(name, exp, f, *edits):
    return ('l01_' + name, 'L01', exp, [(f, a, b) for a, b in edits])


CASES = [
    c('add_one_side', 'V', 'basic.hh', ('if (&v==&v1 || &v==&v2)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add', 'if (&v==&v1)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add')),
    c('add_clear_first', 'V', 'basic.hh', ('        if (&v==&v1 || &v==&v2)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add', '        if (v1.empty()) v.clear();\n        if (&v==&v1 || &v==&v2)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add')),
    c('div_R', 'V', 'basic.hh', ('||(void*)(&R)==(void*)(&v1_) || (void*)(&R)==(void*)(&v2_))', '||(void*)(&R)==(void*)(&v1_))')),
    c('mul_and', 'V', 'basic.hh', ('if ((void*)(&new_v)==(void*)(&v1_) || (void*)(&new_v)==(void*)(&v2_))\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_multiplies', 'if ((void*)(&new_v)==(void*)(&v1_) && (void*)(&new_v)==(void*)(&v2_))\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_multiplies')),
    c('mono_deg_first', 'V', 'monomial.hh', ('        op.comp(op1.comp_ptr());\n        pair_vec_sub(op.data(),op1.data(),op2.data(),op1.comp());\n        op.deg()=op1.deg()-op2.deg();', '        op.comp(op1.comp_ptr());\n        op.deg()=op1.deg();\n        op.deg()-=op2.deg();\n        pair_vec_sub(op.data(),op1.data(),op2.data(),op1.comp());')),
    c('convert_guard', 'V', 'polynomial_convert.hh', ('if ((void*)&p_in==(void*)&p_out)', 'if (false)')),
    c('chord_order', 'V', 'associatedgraph.hh', ('gout=gin;', 'gout=graph<node_type>(); gout=gin;')),
    c('op_self_assign', 'V', 'basic_polynomial.hh', ('                if (&p==this)\n                    return *this;\n                this->__data=p.__data;', '                this->__data.clear(); this->__data=p.__data;')),
    c('caller_onestep', 'V', 'polynomial.hh', ('            std::swap(tmp_G,O.data());\n            __onestep__prem_v1(tmp_G,tmp_F0,f_deg,tmp_F_,O.data(),tmp_F1,tmp_G1,tmp_G2,v,comp);    \n', '            std::swap(tmp_G,O.data());\n            __onestep__prem_v1(tmp_G,tmp_F0,f_deg,tmp_F_,O.data(),tmp_F1,tmp_G,tmp_G2,v,comp);    \n')),
    c('own_node', 'V', 'associatedgraph.hh', ('                    const node_type a_(a),b_(b); // they may refer to our own nodes\n                    this->add_node(a_);\n                    return this->add_edge(a_,b_,directed);\n', '                    this->add_node(a);\n                    na=this->size()-1;\n')),
    # same behaviour
    c('q_helper', 'Q', 'basic.hh', ('        if (&v==&v1 || &v==&v2)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add', '        const bool shared = &v==&v1 || &v==&v2;\n        if (shared)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add')),
    c('q_neg', 'Q', 'basic.hh', ('        if (&v==&v1 || &v==&v2)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add(new_v_,v1,v2,comp);\n            v=new_v_;\n            return void();\n        }\n', '        if (!(&v!=&v1 && &v!=&v2))\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add(new_v_,v1,v2,comp);\n            v.swap(new_v_);\n            return;\n        }\n')),
    c('q_two_ifs', 'Q', 'basic.hh', ('        if (&v==&v1 || &v==&v2)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add(new_v_,v1,v2,comp);\n            v=new_v_;\n            return void();\n        }\n', '        if (&v==&v1)\n        {\n            const std::vector<std::pair<T1,T2>> c1(v1);\n            pair_vec_add(v,c1,&v==&v2 ? c1 : v2,comp);\n            return void();\n        }\n        if (&v==&v2)\n        {\n            const std::vector<std::pair<T1,T2>> c2(v2);\n            pair_vec_add(v,v1,c2,comp);\n            return void();\n        }\n')),
    c('q_copy_always', 'Q', 'monomial.hh', ('        op.comp(op1.comp_ptr());\n        pair_vec_sub(op.data(),op1.data(),op2.data(),op1.comp());\n        op.deg()=op1.deg()-op2.deg();', '        const int64_t dd=op1.deg()-op2.deg();\n        op.comp(op1.comp_ptr());\n        pair_vec_sub(op.data(),op1.data(),op2.data(),op1.comp());\n        op.deg()=dd;')),
    c('q_temp', 'Q', 'polynomial_convert.hh', ('if ((void*)&p_in==(void*)&p_out)', 'const void* pi=(const void*)&p_in; const void* po=(const void*)&p_out;\n        if (pi==po)')),
    c('q_helper_fn', 'Q', 'basic.hh', ('    template <class T1,class T2>\n    std::vector<std::pair<T1,T2>> pair_vec_negate(', '    template <class A,class B> inline bool __same_obj(const A& a,const B& b){ return (const void*)&a==(const void*)&b; }\n    template <class T1,class T2>\n    std::vector<std::pair<T1,T2>> pair_vec_negate('), ('        if (&v==&v1 || &v==&v2)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add', '        if (__same_obj(v,v1) || __same_obj(v,v2))\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add')),
]
