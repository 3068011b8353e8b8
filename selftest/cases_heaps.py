B = 'basic.hh'
M = 'monomial.hh'
ROW = "                    if (heap[0]->v2_ptr==v2_begin&& reset!=v1_.size()){\n                        lin[lin_size++]=heap[reset++];\n                    }\n"
CH = ROW + "                    if (++(heap[0]->v2_ptr)!=v2_end){\n                        lin[lin_size++]=heap[0];\n                        //heap[0]->mono=heap[0]->v1_ptr->first*heap[0]->v2_ptr->first; //multiplies\n                        __mono_mult__(heap[0]->mono,heap[0]->v1_ptr->first,heap[0]->v2_ptr->first);\n                        heap[0]=heap[0]->next;  \n                    }\n                    else{\n                        heap[0]=heap[0]->next;\n                        \n                    }\n                }\n                VHC_extract(heap,heap_size,comp);\n                //end:\n            }while (heap_size>0 && heap[0]->mono==m);  //equal_to"
ADD = "                    addmul(k,heap[0]->v1_ptr->second,heap[0]->v2_ptr->second);\n"
LOOP = "            do{\n                while(heap[0]!=nullptr){\n" + ADD
CHM = ROW + "                    if (++(heap[0]->v2_ptr)!=v2_end){\n                        lin[lin_size++]=heap[0];\n                        heap[0]->mono=heap[0]->v2_ptr->first+heap[0]->v1_ptr.first;\n                        heap[0]=heap[0]->next;  \n                    }\n                    else{\n                        heap[0]=heap[0]->next;\n                    }\n                }\n                VHC_extract(heap,heap_size,gcomp);\n                //end:\n            }while (heap_size>0 && heap[0]->mono==m);  //equal_to"
DV = "                    if (++(heap[0]->v1_ptr)!=v_size){\n                        lin[lin_size++]=heap[0];\n                        //heap[0]->mono=heap[0]->v1_ptr->first*heap[0]->v2_ptr->first; //multiplies\n                        __mono_mult__(heap[0]->mono,new_v[heap[0]->v1_ptr].first,heap[0]->v2_ptr->first);\n                        heap[0]=heap[0]->next;  \n                    }\n                    else{\n                        heap[0]=heap[0]->next;\n                        ++reset_h;\n                    }\n                }\n                VHC_extract(heap,heap_size,comp);\n                //end:\n            }\n            if (!zore_check<T2>()(k)){\n                // new_v.push_back({std::move(m),std::move(k)});\n                if (is_divexact(m1,m,v2_.begin()->first))\n                {\n                    __div(k1,k,v2_.begin()->second);"
W = "                        new_v.push_back({std::move(m1),std::move(k1)});\n                        while(reset_h>0)\n                        {\n                            --reset_h;\n                            __mono_mult__(node[reset_h].mono,new_v[node[reset_h].v1_ptr].first,node[reset_h].v2_ptr->first);\n                            VHC_insert(heap,heap_size,node+reset_h,comp);\n                        }\n                    }\n                }\n            }\n            while(lin_size>0)\n                VHC_insert(heap,heap_size,lin[--lin_size],comp);\n        }\n        delete [] heap;\n        delete [] lin;\n        delete [] node;\n    }\n    template <class T1,class T2,class T3,class T4,class compare>\n    void pair_vec_div"
LIN = "            while(lin_size>0)\n                VHC_insert(heap,heap_size,lin[--lin_size],comp);\n        }\n        delete [] heap;\n        delete [] lin;\n        delete [] node;\n    }\n    template <class T1,class T2,class T3>"
ZERO = "            set_zero(k);\n            m=heap[0]->mono;\n            //std::cout<<m<<std::endl;\n"
TK = "            {\n                m=v1_ptr->first;\n                k=(v1_ptr++)->second;\n            }\n            else\n            {\n                m=heap[0]->mono;\n                set_zero(k);\n            }\n            //std::cout<<m<<\" \"<<k<<std::endl;\n            while(heap_size>0 && heap[0]->mono==m){ //equal_to\n                while(heap[0]!=nullptr){\n                    submul(k,new_v[heap[0]->v1_ptr].second,heap[0]->v2_ptr->second);"
INS = "            newVHC->next=heap[0];\n            heap[0]=newVHC;\n            //return void();"
r = lambda s, a, b: (s, s.replace(a, b)) if a in s else 1 / 0
h = lambda id, want, *eds: (id, 'H01', want, [(f,) + e for f, e in eds])
SEL = '            if (v1_ptr!=v1_end && (heap_size==0 || !comp(heap[0]->mono,v1_ptr->first)))\n'
CASES = [
 h('h_zero', 'V', (B, r(ZERO, "            set_zero(k);\n", ""))),
 h('h_zero_some', 'V', (B, r(ZERO, "            set_zero(k);\n", "            if (new_v.size()) set_zero(k);\n"))),
 h('h_once', 'V', (B, r(CH, "while (heap_size>0 && heap[0]->mono==m);", "while (false);"))),
 h('h_lin_if', 'V', (B, r(LIN, "while(lin_size>0)", "if(lin_size>0)"))),
 h('h_lin_one', 'V', (B, r(LIN, "while(lin_size>0)", "while(lin_size>1)"))),
 h('h_mono', 'V', (B, r(CH, "                        __mono_mult__(heap[0]->mono,heap[0]->v1_ptr->first,heap[0]->v2_ptr->first);\n", ""))),
 h('h_mono_early', 'V', (B, r(CH, "                    if (++(heap[0]->v2_ptr)!=v2_end){", "                    __mono_mult__(heap[0]->mono,heap[0]->v1_ptr->first,heap[0]->v2_ptr->first);\n                    if (++(heap[0]->v2_ptr)!=v2_end){"), ), (B, ("                        //heap[0]->mono=heap[0]->v1_ptr->first*heap[0]->v2_ptr->first; //multiplies\n                        __mono_mult__(heap[0]->mono,heap[0]->v1_ptr->first,heap[0]->v2_ptr->first);\n", ""))),
 h('h_aside_late', 'V', (B, r(CH, "                        lin[lin_size++]=heap[0];\n", "")), (B, ("heap[0]->v1_ptr->first,heap[0]->v2_ptr->first);\n                        heap[0]=heap[0]->next;  \n", "heap[0]->v1_ptr->first,heap[0]->v2_ptr->first);\n                        heap[0]=heap[0]->next;  \n                        if (heap[0]) lin[lin_size++]=heap[0];\n"))),
 h('h_noadd', 'V', (B, r(LOOP, ADD, "                    if (new_v.size()<65536) addmul(k,heap[0]->v1_ptr->second,heap[0]->v2_ptr->second);\n"))),
 h('h_end', 'V', (B, r(CH, "!=v2_end", "!=v2_begin"))),
 h('h_start_always', 'V', (B, r(CH, "if (heap[0]->v2_ptr==v2_begin&& reset!=v1_.size())", "if (reset!=v1_.size())"))),
 h('h_start_never', 'V', (B, r(CH, "if (heap[0]->v2_ptr==v2_begin&& reset!=v1_.size())", "if (heap[0]->v2_ptr!=v2_begin&& reset!=v1_.size())"))),
 h('h_start_all', 'V', (B, r(CH, "if (heap[0]->v2_ptr==v2_begin&& reset!=v1_.size())", "if (heap[0]->v2_ptr==v2_begin)"))),
 h('h_start_gone', 'V', (B, r(CH, ROW, ""))),
 h('h_c_once', 'V', (M, r(CHM, "while (heap_size>0 && heap[0]->mono==m);", "while (false);"))),
 h('h_c_mono', 'V', (M, r(CHM, "                        heap[0]->mono=heap[0]->v2_ptr->first+heap[0]->v1_ptr.first;\n", ""))),
 h('h_c_mono_half', 'V', (M, r(CHM, "heap[0]->v2_ptr->first+heap[0]->v1_ptr.first", "heap[0]->v1_ptr.first"))),
 h('h_c_start', 'V', (M, r(CHM, "heap[0]->v2_ptr==v2_begin&& reset", "heap[0]->v2_ptr!=v2_begin&& reset"))),
 h('h_d_wait', 'V', (B, r(DV, "                        ++reset_h;\n", ""))),
 h('h_d_wait_if', 'V', (B, r(DV, "                        ++reset_h;\n", "                        if (heap[0]) ++reset_h;\n"))),
 h('h_d_drain_if', 'V', (B, r(W, "while(reset_h>0)", "if(reset_h>0)"))),
 h('h_d_lin_in', 'V', (B, r(W, "            while(lin_size>0)", "            if (!zore_check<T2>()(k1)) while(lin_size>0)"))),
 h('h_d_zero', 'V', (B, r(TK, "                set_zero(k);\n", ""))),
 h('h_d_if', 'V', (B, r(TK, "            while(heap_size>0 && heap[0]->mono==m)", "            if(heap_size>0 && heap[0]->mono==m)"))),
 h('h_ins_count', 'V', (B, ("            heap_size++;\n            heap[0]=newVHC;", "            heap[0]=newVHC;"))),
 h('h_ins_chain', 'V', (B, r(INS, "newVHC->next=heap[0];\n            heap[0]=newVHC;", "heap[0]=newVHC;\n                newVHC->next=nullptr;"))),
 h('h_ins_turn', 'V', (B, r(INS, "newVHC->next=heap[0];\n            heap[0]=newVHC;", "heap[0]=newVHC;\n                newVHC->next=heap[0];"))),
 h('h_ins_stale', 'V', (B, ("heap[i]=newVHC;newVHC->next=nullptr;", "heap[i]=newVHC;"))),
 # behaviour kept
 h('hq_alias', 'Q', (B, (CH, CH.replace("                    if (++(heap[0]->v2_ptr)!=v2_end){", "                    auto *cur=heap[0];\n                    if (++(cur->v2_ptr)!=v2_end){").replace("lin[lin_size++]=heap[0];", "lin[lin_size++]=cur;").replace("__mono_mult__(heap[0]->mono,heap[0]->v1_ptr->first,heap[0]->v2_ptr->first)", "__mono_mult__(cur->mono,cur->v1_ptr->first,cur->v2_ptr->first)").replace("heap[0]=heap[0]->next;", "heap[0]=cur->next;")))),
 h('hq_next_once', 'Q', (B, (CH, CH.replace("                    if (++(heap[0]->v2_ptr)!=v2_end){", "                    auto *cur=heap[0];\n                    heap[0]=cur->next;\n                    if (++(cur->v2_ptr)!=v2_end){").replace("lin[lin_size++]=heap[0];", "lin[lin_size++]=cur;").replace("__mono_mult__(heap[0]->mono,heap[0]->v1_ptr->first,heap[0]->v2_ptr->first)", "__mono_mult__(cur->mono,cur->v1_ptr->first,cur->v2_ptr->first)").replace("                        heap[0]=heap[0]->next;  \n", "").replace("                        heap[0]=heap[0]->next;\n", "")))),
 h('hq_invert', 'Q', (B, r(CH, "                    if (++(heap[0]->v2_ptr)!=v2_end){\n                        lin[lin_size++]=heap[0];\n", "                    ++(heap[0]->v2_ptr);\n                    if (heap[0]->v2_ptr==v2_end){\n                        heap[0]=heap[0]->next;\n                        continue;\n                    }\n                    {\n                        lin[lin_size++]=heap[0];\n"), ), (B, ("                        heap[0]=heap[0]->next;  \n                    }\n                    else{\n                        heap[0]=heap[0]->next;\n                        \n                    }\n", "                        heap[0]=heap[0]->next;  \n                    }\n"))),
 h('hq_for', 'Q', (B, r(LOOP, "while(heap[0]!=nullptr){", "for(;heap[0]!=nullptr;){"))),
 h('hq_bools', 'Q', (B, r(CH, "                    if (heap[0]->v2_ptr==v2_begin&& reset!=v1_.size()){", "                    const bool is_first=heap[0]->v2_ptr==v2_begin;\n                    const bool rows_left=reset!=v1_.size();\n                    if (is_first && rows_left){"))),
 h('hq_nested', 'Q', (B, r(CH, "                    if (heap[0]->v2_ptr==v2_begin&& reset!=v1_.size()){\n                        lin[lin_size++]=heap[reset++];\n                    }", "                    if (reset<v1_.size()){\n                        if (v2_begin==heap[0]->v2_ptr){\n                            lin[lin_size]=heap[reset];\n                            ++lin_size;\n                            ++reset;\n                        }\n                    }"))),
 h('hq_more', 'Q', (B, r(CH, "                    if (++(heap[0]->v2_ptr)!=v2_end){", "                    const bool more=++(heap[0]->v2_ptr)!=v2_end;\n                    if (more){"))),
 h('hq_lin_for', 'Q', (B, r(LIN, "            while(lin_size>0)\n                VHC_insert(heap,heap_size,lin[--lin_size],comp);", "            for(;lin_size!=0;--lin_size)\n                VHC_insert(heap,heap_size,lin[lin_size-1],comp);"))),
 h('hq_lin_up', 'Q', (B, r(LIN, "            while(lin_size>0)\n                VHC_insert(heap,heap_size,lin[--lin_size],comp);", "            for(std::size_t q=0;q<lin_size;++q)\n                VHC_insert(heap,heap_size,lin[q],comp);\n            lin_size=0;"))),
 h('hq_zero', 'Q', (B, r(ZERO, "            set_zero(k);\n            m=heap[0]->mono;\n", "            m=heap[0]->mono;\n            set_zero(k);\n"))),
 h('hq_do', 'Q', (B, r(CH, "}while (heap_size>0 && heap[0]->mono==m);", "if (heap_size==0 || !(m==heap[0]->mono)) break;\n            }while (true);"))),
 h('hq_zore', 'Q', (B, ("            if (!zore_check<T2>()(k)){\n                new_v.push_back({std::move(m),std::move(k)});\n            }\n            while(lin_size>0)\n                VHC_insert(heap,heap_size,lin[--lin_size],comp);\n        }\n        delete [] heap;\n        delete [] lin;\n        delete [] node;\n    }\n    template <class T1,class T2,class T3>\n", "            const bool gone=zore_check<T2>()(k);\n            while(lin_size>0)\n                VHC_insert(heap,heap_size,lin[--lin_size],comp);\n            if (!gone)\n                new_v.push_back({std::move(m),std::move(k)});\n        }\n        delete [] heap;\n        delete [] lin;\n        delete [] node;\n    }\n    template <class T1,class T2,class T3>\n"))),
 h('hq_d_alias', 'Q', (B, (DV, DV.replace("                    if (++(heap[0]->v1_ptr)!=v_size){", "                    auto *top=heap[0];\n                    heap[0]=top->next;\n                    ++top->v1_ptr;\n                    if (top->v1_ptr!=v_size){").replace("lin[lin_size++]=heap[0];", "lin[lin_size++]=top;").replace("__mono_mult__(heap[0]->mono,new_v[heap[0]->v1_ptr].first,heap[0]->v2_ptr->first)", "__mono_mult__(top->mono,new_v[top->v1_ptr].first,top->v2_ptr->first)").replace("                        heap[0]=heap[0]->next;  \n", "").replace("                        heap[0]=heap[0]->next;\n", "")))),
 h('hq_d_ref', 'Q', (B, r(DV, "__mono_mult__(heap[0]->mono,new_v[heap[0]->v1_ptr].first,heap[0]->v2_ptr->first)", "const auto &qt=new_v[heap[0]->v1_ptr];\n                        __mono_mult__(heap[0]->mono,qt.first,heap[0]->v2_ptr->first)"))),
 h('hq_d_wait', 'Q', (B, r(W, "while(reset_h>0)\n                        {\n                            --reset_h;", "while(reset_h!=0)\n                        {\n                            reset_h-=1;"))),
 h('hq_d_order', 'Q', (B, r(TK, "                m=heap[0]->mono;\n                set_zero(k);\n", "                set_zero(k);\n                m=heap[0]->mono;\n"))),
 h('hq_ins', 'Q', (B, (INS, INS.replace("newVHC->next=heap[0];\n            heap[0]=newVHC;", "auto *old=heap[0];\n                newVHC->next=old;\n                heap[0]=newVHC;")))),
 h('hq_ins_null', 'Q', (B, ("            heap_size++;\n            heap[0]=newVHC;\n            newVHC->next=nullptr;", "            newVHC->next=nullptr;\n            heap[0]=newVHC;\n            heap_size=1;"))),
 h('hq_ins_ret', 'Q', (B, ("        if (heap_size==0)\n        {\n            heap_size++;\n            heap[0]=newVHC;\n            newVHC->next=nullptr;\n            //return void();\n        }\n        else\n", "        if (heap_size==0)\n        {\n            newVHC->next=nullptr;\n            heap[0]=newVHC;\n            ++heap_size;\n            return;\n        }\n"))),
 h('hq_h_step', 'Q', (B, ('                    if (++(heap[0]->v2_ptr)!=v2_end){\n                        lin[lin_size++]=heap[0];\n                        //heap[0]->mono=heap[0]->v1_ptr->first*heap[0]->v2_ptr->first; //multiplies\n                        __mono_mult__(heap[0]->mono,heap[0]->v1_ptr->first,heap[0]->v2_ptr->first);\n                        heap[0]=heap[0]->next;  \n                    }\n                    else{\n                        heap[0]=heap[0]->next;\n                        \n                    }\n', '                    __vhc_step(heap,lin,lin_size,v2_end);\n')), (B, ('    template <class T1,class T2,class T3,class T4,class compare>\n    constexpr bool __pair_vec_multiplies_compression\n', '    template<class H,class E>\n    inline void __vhc_step(H** heap,H** lin,std::size_t & lin_size,const E & v2_end)\n    {\n        H* cur=heap[0];\n        heap[0]=cur->next;\n        if (++(cur->v2_ptr)!=v2_end){\n            lin[lin_size++]=cur;\n            __mono_mult__(cur->mono,cur->v1_ptr->first,cur->v2_ptr->first);\n        }\n    }\n    template<class H,class C>\n    inline void __vhc_back(H** heap,std::size_t & heap_size,H** lin,std::size_t & lin_size,const C & comp)\n    {\n        while(lin_size>0)\n            VHC_insert(heap,heap_size,lin[--lin_size],comp);\n    }\n    template <class T1,class T2,class T3,class T4,class compare>\n    constexpr bool __pair_vec_multiplies_compression\n'))),
 h('hq_h_back', 'Q', (B, ('    template <class T1,class T2,class T3,class T4,class compare>\n    constexpr bool __pair_vec_multiplies_compression\n', '    template<class H,class E>\n    inline void __vhc_step(H** heap,H** lin,std::size_t & lin_size,const E & v2_end)\n    {\n        H* cur=heap[0];\n        heap[0]=cur->next;\n        if (++(cur->v2_ptr)!=v2_end){\n            lin[lin_size++]=cur;\n            __mono_mult__(cur->mono,cur->v1_ptr->first,cur->v2_ptr->first);\n        }\n    }\n    template<class H,class C>\n    inline void __vhc_back(H** heap,std::size_t & heap_size,H** lin,std::size_t & lin_size,const C & comp)\n    {\n        while(lin_size>0)\n            VHC_insert(heap,heap_size,lin[--lin_size],comp);\n    }\n    template <class T1,class T2,class T3,class T4,class compare>\n    constexpr bool __pair_vec_multiplies_compression\n')), (B, r(LIN, "            while(lin_size>0)\n                VHC_insert(heap,heap_size,lin[--lin_size],comp);", "            __vhc_back(heap,heap_size,lin,lin_size,comp);"))),
 h('hq_h_lambda', 'Q', (B, r(LIN, "            while(lin_size>0)\n                VHC_insert(heap,heap_size,lin[--lin_size],comp);", "            auto back=[&](){while(lin_size>0)\n                VHC_insert(heap,heap_size,lin[--lin_size],comp);};\n            back();"))),
 h('hq_h_lambda2', 'Q', (B, ('                    if (++(heap[0]->v2_ptr)!=v2_end){\n                        lin[lin_size++]=heap[0];\n                        //heap[0]->mono=heap[0]->v1_ptr->first*heap[0]->v2_ptr->first; //multiplies\n                        __mono_mult__(heap[0]->mono,heap[0]->v1_ptr->first,heap[0]->v2_ptr->first);\n                        heap[0]=heap[0]->next;  \n                    }\n                    else{\n                        heap[0]=heap[0]->next;\n                        \n                    }\n', "                    auto adv=[&](){%s};\n                    adv();\n" % '                    if (++(heap[0]->v2_ptr)!=v2_end){\n                        lin[lin_size++]=heap[0];\n                        //heap[0]->mono=heap[0]->v1_ptr->first*heap[0]->v2_ptr->first; //multiplies\n                        __mono_mult__(heap[0]->mono,heap[0]->v1_ptr->first,heap[0]->v2_ptr->first);\n                        heap[0]=heap[0]->next;  \n                    }\n                    else{\n                        heap[0]=heap[0]->next;\n                        \n                    }\n'))),
 h('h_sel_strict', 'V', (B, (SEL+TK, (SEL+TK).replace("!comp(heap[0]->mono,v1_ptr->first)", "comp(v1_ptr->first,heap[0]->mono)")))),
 h('h_sel_heap', 'V', (B, (SEL+TK, (SEL+TK).replace("(heap_size==0 || !comp(heap[0]->mono,v1_ptr->first))", "heap_size==0")))),
 h('h_sel_turn', 'V', (B, (SEL+TK, (SEL+TK).replace("!comp(heap[0]->mono,v1_ptr->first)", "comp(heap[0]->mono,v1_ptr->first)")))),
 h('h_sel_noadv', 'V', (B, r(TK, "                k=(v1_ptr++)->second;\n", "                k=v1_ptr->second;\n                if (heap_size==0) ++v1_ptr;\n"))),
 h('h_sel_skip', 'V', (B, r(TK, "                k=(v1_ptr++)->second;\n", "                k=(v1_ptr++)->second;\n                while (v1_ptr!=v1_end && v1_ptr->first==m) ++v1_ptr;\n"))),
 h('h_sel_nok', 'V', (B, r(TK, "                k=(v1_ptr++)->second;\n", "                if (v_size) k=v1_ptr->second;\n                ++v1_ptr;\n"))),
 h('hq_sel_bool', 'Q', (B, (SEL+TK, (SEL+TK).replace("            if (v1_ptr!=v1_end && (heap_size==0 || !comp(heap[0]->mono,v1_ptr->first)))", "            const bool from_v1=v1_ptr!=v1_end && (heap_size==0 || !comp(heap[0]->mono,v1_ptr->first));\n            if (from_v1)")))),
 h('hq_sel_swap', 'Q', (B, (SEL+TK, (SEL+TK).replace("            if (v1_ptr!=v1_end && (heap_size==0 || !comp(heap[0]->mono,v1_ptr->first)))\n            {\n                m=v1_ptr->first;\n                k=(v1_ptr++)->second;\n            }\n            else\n            {\n                m=heap[0]->mono;\n                set_zero(k);\n            }\n", "            if (v1_ptr==v1_end || (heap_size>0 && comp(heap[0]->mono,v1_ptr->first)))\n            {\n                m=heap[0]->mono;\n                set_zero(k);\n            }\n            else\n            {\n                const auto &t=*v1_ptr;\n                ++v1_ptr;\n                m=t.first;\n                k=t.second;\n            }\n")))),
 h('hq_sel_term', 'Q', (B, r(TK, "                m=v1_ptr->first;\n                k=(v1_ptr++)->second;\n", "                m=v1_ptr->first;\n                k=v1_ptr->second;\n                ++v1_ptr;\n"))),
 h('h_exit_and', 'V', (B, ("        while (heap_size!=0 || v1_ptr!=v1_end)\n", "        while (heap_size!=0 && v1_ptr!=v1_end)\n"))),
 h('h_exit_v1', 'V', (B, ("        while (heap_size!=0 || v1_ptr!=v1_end)\n", "        while (v1_ptr!=v1_end)\n"))),
 h('h_exit_mul', 'V', (B, ("        while (heap_size!=0)\n", "        while (heap_size>1)\n"))),
 h('h_exit_c', 'V', (M, ("        while (!overflow && (heap_size!=0 || v1_ptr!=v1_end))\n", "        while (!overflow && v1_ptr!=v1_end)\n"))),
 h('h_put', 'V', (B, ("            if (!zore_check<T2>()(k)){\n                new_v.push_back({std::move(m),std::move(k)});", "            if (!zore_check<T2>()(k) && heap_size+lin_size>0){\n                new_v.push_back({std::move(m),std::move(k)});"))),
 h('h_put_q', 'V', (B, ("                    if(!zore_check<T2>()(k1)){\n                        ++v_size;\n", "                    if(!zore_check<T2>()(k1) && !(v_size && heap_size==0)){\n                        ++v_size;\n"))),
 h('h_put_r', 'V', (B, ("                    if(!zore_check<T2>()(k2)){\n                        R.push_back({std::move(m),std::move(k2)});\n                    }\n", "                    if(!zore_check<T2>()(k2) && v_size){\n                        R.push_back({std::move(m),std::move(k2)});\n                    }\n"))),
 h('hq_exit_do', 'Q', (B, ("        while (heap_size!=0)\n        {\n            set_zero(k);", "        for (;;)\n        {\n            if (heap_size==0)\n                break;\n            set_zero(k);"))),
 h('hq_exit_c_break', 'Q', (M, ("        while (!overflow && (heap_size!=0 || v1_ptr!=v1_end))\n        {\n", "        while (heap_size!=0 || v1_ptr!=v1_end)\n        {\n            if (overflow)\n                break;\n"))),
 h('hq_put', 'Q', (B, ("            if (!zore_check<T2>()(k)){\n                new_v.push_back({std::move(m),std::move(k)});\n            }\n", "            const bool cancelled=zore_check<T2>()(k);\n            if (!cancelled)\n            {\n                std::pair<T1,T2> term(std::move(m),std::move(k));\n                new_v.push_back(std::move(term));\n            }\n"))),
 h('hq_put_k', 'Q', (B, ("                    if(!zore_check<T2>()(k1)){\n                        ++v_size;\n", "                    const bool nz=!zore_check<T2>()(k1);\n                    if(nz){\n                        ++v_size;\n"))),
]
