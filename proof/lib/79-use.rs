verus! { broadcast use {axiom_vecset, axiom_btreeset, lemma_take_all, lemma_skip_none, lemma_one_any, lemma_one_all, lemma_two_any, lemma_two_all, lemma_sem_or, lemma_sem_and, lemma_flat_any, lemma_flat_all, lemma_single, lemma_found, lemma_positions, lemma_tags_at, lemma_member, lemma_translated, lemma_selected, lemma_t, lemma_pos_of, lemma_elem_table, lemma_single_tag, lemma_csem_empty, lemma_any_csem, lemma_fold_dnf_or, lemma_fold_dnf_and, lemma_fold_expr_or, lemma_fold_expr_and}; }
