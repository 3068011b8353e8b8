B = 'basic.hh'
ADD = "            if (comp(v2_ptr->first,v1_ptr->first))\n                v.push_back(*(v2_ptr++));"
CASES = [
 # normalisation, sums, differences of term lists
 ('r3_p_norm_first', 'P01', 'Q', [(B, "        while (t2!=e && zore_check<T2>()(t2->second))\n            ++t2;\n        if (t2==e)\n            return 0;", "        if (t2==e)\n            return 0;")]),
 ('r3_p_norm_last', 'P01', 'V', [(B, "        if (zore_check<T2>()(t1->second))\n            --tmp_size;\n        return tmp_size;", "        if (tmp_size==1 && zore_check<T2>()(t1->second))\n            --tmp_size;\n        return tmp_size;")]),
 ('r3_p_norm_cancel', 'P01', 'V', [(B, "                    if (!zore_check<T2>()(t1->second)) //otherwise the merged terms cancelled\n                    {\n                        ++t1;\n                        ++tmp_size;\n                    }", "                    ++t1;\n                    ++tmp_size;")]),
 ('r3_p_norm_swap', 'P01', 'V', [(B, "            if (!zore_check<T2>()(t2->second))\n                if (t1->first==t2->first) //equal_to\n                    t1->second+=t2->second;//add_assignment\n                else\n                {\n                    if (!zore_check<T2>()(t1->second))", "            if (!zore_check<T2>()(t2->second))\n                if (t1->first==t2->first) //equal_to\n                    t1->second+=t2->second;//add_assignment\n                else\n                {\n                    if (!zore_check<T2>()(t2->second))")]),
 ('r3_t_add_rest', ['T01'], 'V', [(B, "        while (v1_ptr!=v1_end)\n        {\n            v.push_back(*(v1_ptr++));\n        }\n        while (v2_ptr!=v2_end)\n        {\n            v.push_back(*(v2_ptr++));\n        }\n    }\n", "        while (v1_ptr!=v1_end)\n        {\n            v.push_back(*(v1_ptr++));\n        }\n        if (v.empty())\n        while (v2_ptr!=v2_end)\n        {\n            v.push_back(*(v2_ptr++));\n        }\n    }\n")]),
 ('r3_t_add_eq', ['T01'], 'V', [(B, "                    if (!zore_check<T2>()(tmp=v2_ptr->second+v1_ptr->second)) //plus\n                        v.emplace_back(v1_ptr->first,std::move(tmp));\n                    ++v2_ptr;++v1_ptr;", "                    if (!zore_check<T2>()(tmp=v2_ptr->second+v1_ptr->second)) //plus\n                    {\n                        v.emplace_back(v1_ptr->first,std::move(tmp));\n                        ++v1_ptr;\n                    }\n                    else ++v1_ptr;\n                    if (v1_ptr!=v1_end) ++v2_ptr;")]),
 ('r3_t_add_sizes', ['T01'], 'V', [(B, "        if (v1.empty())\n        {\n            v=v2;\n            return void();\n        }", "        if (v1.empty() || v2.size()>1 && comp(v2.back().first,v1.front().first) && v1.size()>64)\n        {\n            v=v2;\n            return void();\n        }")]),
 ('r3_t_sub_v1empty', ['T01'], 'V', [(B, "        if (v1.empty())\n        {\n            pair_vec_negate(v,v2);\n            return void();\n        }", "        if (v1.empty())\n        {\n            v=v2;\n            return void();\n        }")]),
 ('r3_t_sub_tail', ['T01'], 'V', [(B, "        while (v2_ptr!=v2_end)\n        {\n            v.emplace_back(v2_ptr->first,-v2_ptr->second);//negate\n            ++v2_ptr;\n        }\n        while (v1_ptr!=v1_end)", "        while (v2_ptr!=v2_end)\n        {\n            v.push_back(*(v2_ptr++));\n        }\n        while (v1_ptr!=v1_end)")]),
 ('r3_t_sub_concat_ok', ['T01', 'P01', 'L01'], 'Q', [(B, "        while (v2_ptr!=v2_end)\n        {\n            v.emplace_back(v2_ptr->first,-v2_ptr->second);//negate\n            ++v2_ptr;\n        }\n        while (v1_ptr!=v1_end)", "        for (;v2_ptr!=v2_end;++v2_ptr)\n            v.push_back({v2_ptr->first,-v2_ptr->second});\n        while (v1_ptr!=v1_end)")]),
 ('r3_l_add_v2', 'L01', 'V', [(B, "        if (&v==&v1 || &v==&v2)\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add", "        if (&v==&v1 || v.empty())\n        {\n            std::vector<std::pair<T1,T2>> new_v_;\n            pair_vec_add")]),
 ('r3_t_neg_inplace', ['T01'], 'V', [(B, "        for (auto &&i:v)\n        {\n            i.second=-i.second;//negate", "        for (auto i:v)\n        {\n            i.second=-i.second;//negate")]),
 ('r3_t_neg_first', ['T01'], 'V', [(B, "        new_T.clear();\n        new_T.reserve(v1.size());\n        for (auto &&i:v1)", "        new_T.reserve(v1.size());\n        for (auto &&i:v1)")]),
 ('r3_k_eq_len', 'K01', 'V', [(B, "        if (v1.size()!=v2.size())\n            return false;\n        auto v1_ptr=v1.begin();", "        if (v1.empty()!=v2.empty())\n            return false;\n        auto v1_ptr=v1.begin();")]),
 ('r3_k_eq_and', 'K01', 'V', [(B, "            if (v1_ptr->first!=v2_ptr->first || v1_ptr->second!=v2_ptr->second) //equal_to", "            if (v1_ptr->first!=v2_ptr->first && v1_ptr->second!=v2_ptr->second) //equal_to")]),
 ('r3_k_comp_len', 'K01', 'V', [(B, "        if (v1_ptr==v1_end)\n            return false;\n        else\n            return true;", "        return v2_ptr==v2_end;")]),
]
CASES += [
 ('r3_t_neg_iter_ok', ['T01'], 'Q', [(B, "        for (auto &&i:v)\n        {\n            i.second=-i.second;//negate", "        for (auto it=v.begin();it!=v.end();++it)\n        {\n            it->second=-it->second;//negate")]),
 ('r3_t_neg_idx_ok', ['T01'], 'Q', [(B, "        for (auto &&i:v)\n        {\n            i.second=-i.second;//negate", "        for (std::size_t k=0;k<v.size();++k)\n        {\n            v[k].second=-v[k].second;//negate")]),
 ('r3_t_neg_each_ok', ['T01'], 'Q', [(B, "        for (auto &&i:v)\n        {\n            i.second=-i.second;//negate\n        }", "        std::for_each(v.begin(),v.end(),[](auto & t){ t.second=-t.second; });")]),
]
