def c(name, exp, f, *edits):
    return ('s01_' + name, 'S01', exp, [(f, a, b) for a, b in edits])


U = 'polynomial_factorize_univar.hh'
W = 'polynomial_factorize_wang.hh'
B = 'basic.hh'
CASES = [
    c('add_node', 'V', 'associatedgraph.hh', ('                    this->__mnode[c]=this->__nodes.size();\n                    this->__nodes.push_back(std::move(c));\n', '                    this->__nodes.push_back(std::move(c));\n                    this->__mnode[c]=this->__nodes.size()-1;\n')),
    c('erase_end', 'V', 'charset.hh', ('                        g.pop_back();\n', '                        g.erase(g.end());\n')),
    c('recomb_move_twice', 'V', U, ('                        result.push_back(std::move(pp_g));\n                        auto [c_q, pp_q] = __upoly_primitive(std::move(q_trial));', '                        result.push_back(std::move(pp_g));\n                        auto [c_q, pp_q] = __upoly_primitive(q_trial);\n                        if (pp_g.front().second < 0) f_star = pp_q;')),
    c('heap_leak', 'V', B, ('        delete [] heap;\n        delete [] lin;\n        delete [] node;\n', '        delete [] heap;\n        delete [] lin;\n        if (!new_v.empty()) delete [] node;\n')),
    c('heap_early', 'V', B, ('        while (heap_size!=0)\n', '        if (v1_.size()==1 && v2_.size()==1) return;\n        while (heap_size!=0)\n')),
    c('heap_use', 'V', B, ('        delete [] heap;\n        delete [] lin;\n        delete [] node;\n', '        delete [] heap;\n        delete [] lin;\n        delete [] node;\n        if (heap[0]) heap_size=0;\n')),
    c('pairs_erase', 'V', 'groebner.hh', ('            pairs.erase(min_it);', '            pairs.erase(min_it); if (min_it->sugar > 1000) pairs.clear();')),
    c('push_ref', 'V', W, ('                for (auto& [fi, ei] : sub.factors)\n                    result.factors.push_back({fi, ei * mk});', '                auto* last = result.factors.data();\n                for (auto& [fi, ei] : sub.factors)\n                    result.factors.push_back({fi, ei * mk});\n                if (last->second < 1) return result;')),
    # quiet
    c('q_move_reset', 'Q', U, ('                        f_star = std::move(pp_q);', '                        f_star = std::move(pp_q); pp_q = f_star; f_star = pp_q;')),
    c('q_erase_loop', 'Q', 'groebner.hh', ('            pairs.erase(min_it);', '            min_it = pairs.erase(min_it); if (min_it != pairs.end() && min_it->sugar < 0) break;')),
    c('q_own_struct', 'Q', B, ('        delete [] heap;\n        delete [] lin;\n        delete [] node;\n', '        delete [] node;\n        delete [] lin;\n        delete [] heap;\n        node=nullptr;\n')),
]
