SPECS = {
 "C01": dict(harness=["c01.cpp"], entries=[dict(name="h_order"), dict(name="h_wide"), dict(name="h_single"), dict(name="h_longest"), dict(name="h_sub")]),
 "C02": dict(harness=["c02.cpp"], entries=[dict(name="h_sign"), dict(name="h_words"), dict(name="h_zero")]),
 "C03": dict(harness=["c03.cpp"], entries=[dict(name="h_u8"), dict(name="h_u64"), dict(name="h_small"), dict(name="h_empty")]),
 "C04": dict(harness=["c04.cpp"], entries=[dict(name="h_hist"), dict(name="h_push")]),
 "C05": dict(harness=["c05.cpp"], entries=[dict(name="h_loc", thorough=dict(total=6, len=4, len2=3)), dict(name="h_assoc", thorough=dict(mid=2)), dict(name="h_layout"), dict(name="h_generic"), dict(name="h_longw")]),
 "C12": dict(harness=["c12.cpp"], entries=[dict(name="h_build", thorough=dict(n=4)), dict(name="h_unary", params=dict(lim=2), thorough=dict(n=3, lim=3)), dict(name="h_scale"), dict(name="h_add", params=dict(m=2), thorough=dict(n=3,m=2)), dict(name="h_mono"), dict(name="h_degree"), dict(name="h_presort")]),
 "C13": dict(harness=["c13.cpp"], entries=[dict(name="h_rule", reach=["end","contradiction","split","solved","partial","partial-split"]), dict(name="h_oblique", fn="h_rule", params=dict(oblique=1), thorough=dict(layouts=8, first_dirs=5), reach=["end","partial","partial-split"]), dict(name="h_reduce"), dict(name="h_book", reach=["end","contradiction"]), dict(name="h_combine", reach=["end","refused"]), dict(name="h_map", reach=["end","contradiction"], thorough=dict(lim=2, layouts=8)), dict(name="h_inject"), dict(name="h_book3", fn="h_book", thorough=dict(rules=3, layouts=8), thorough_only=True, reach=["end","contradiction"]), dict(name="h_bookwide", fn="h_book", thorough=dict(n=3, layouts=8), thorough_only=True, reach=["end","contradiction"])]),
 "C11": dict(harness=["c11.cpp"], entries=[dict(name="h_history"), dict(name="h_index"), dict(name="h_alias"), dict(name="h_bits", reach=["end","zero"])]),
 "C06": dict(harness=["c06.cpp"], entries=[dict(name="h_words", params=dict(last=6), thorough=dict(last=9)), dict(name="h_words3", fn="h_words", params=dict(first=8, last=9), thorough=dict(len=3)), dict(name="h_moments", params=dict(last=5)), dict(name="h_moments2", fn="h_moments", params=dict(first=6, last=9, len=2), thorough=dict(len=3)), dict(name="h_moments4", fn="h_moments", params=dict(last=5), thorough=dict(len=4), thorough_only=True), dict(name="h_outcomes", reach=["end","refused"])]),
 "C17": dict(harness=["c17.cpp"], entries=[dict(name="h_make", params=dict(len=3), thorough=dict(level=2)), dict(name="h_times", params=dict(len=3)), dict(name="h_sum"), dict(name="h_clone"), dict(name="h_alias")]),
 "C16": dict(harness=["c16.cpp"], entries=[dict(name="h_locality", params=dict(layouts=11)), dict(name="h_virtual"), dict(name="h_huge"), dict(name="h_inflation", params=dict(nets=4)), dict(name="h_range", params=dict(layouts=7)), dict(name="h_irange", params=dict(nets=3)), dict(name="h_correlator"), dict(name="h_rules", params=dict(layouts=3)), dict(name="h_convert", thorough=dict(lim=100)), dict(name="h_view")]),
 "C10": dict(harness=["c10.cpp"], entries=[dict(name="h_generic", params=dict(L=4), thorough=dict(L=6)), dict(name="h_free", params=dict(L=4), thorough=dict(L=5)), dict(name="h_locality", thorough=dict(L=4)), dict(name="h_inflation"), dict(name="h_pauli", thorough=dict(qubits=5)), dict(name="h_race")]),
 "C09": dict(harness=["c09.cpp"], entries=[dict(name="h_reduce", params=dict(rules=1, left=3), thorough=dict(len=4), max_steps=3000000, reach=["end","skipped"]), dict(name="h_reduce2", fn="h_reduce", params=dict(signs=0), thorough=dict(signs=1), max_steps=3000000, reach=["end","skipped"]), dict(name="h_reduce4", fn="h_reduce", params=dict(rules=1, first=2, last=3), thorough=dict(left=3), max_steps=3000000), dict(name="h_complete", params=dict(last=0), thorough=dict(last=1), max_steps=6000000, reach=["end","complete","skipped"]), dict(name="h_complete2", fn="h_complete", params=dict(rules=2, left=2, signs=0), thorough=dict(left=3), max_steps=6000000, reach=["end","complete","skipped"]), dict(name="h_complete4", fn="h_complete", params=dict(first=2, last=3, left=2, len=3), max_steps=6000000, reach=["end","complete"]), dict(name="h_ctx", thorough=dict(signs=1, len=4), max_steps=6000000, reach=["end","complete"]), dict(name="h_ctx4", fn="h_ctx", params=dict(first=2, last=3, rules=0), thorough=dict(rules=1), max_steps=6000000, reach=["end","complete"])]),
 "C07": dict(harness=["c07.cpp"], entries=[dict(name="h_words", thorough=dict(len=5)), dict(name="h_long", thorough=dict(long=12)), dict(name="h_product", thorough=dict(qubits=5, kinds=2)), dict(name="h_chain", thorough=dict(span=5)), dict(name="h_poly", thorough=dict(total=4)), dict(name="h_sigma")]),
 "C08": dict(harness=["c08.cpp"], entries=[dict(name="h_packed1"), dict(name="h_packed2", thorough=dict(all=1)), dict(name="h_packed3", thorough=dict(last=13)), dict(name="h_packed4"), dict(name="h_alias", thorough=dict(qubits=7)), dict(name="h_canon", thorough=dict(shapes=9)), dict(name="h_large", thorough=dict(last=12)), dict(name="h_tall", reach=["end","refused"]), dict(name="h_fill", thorough=dict(shapes=13)), dict(name="h_nn", reach=["end","refused"], thorough=dict(chain=6)), dict(name="h_average", thorough=dict(shapes=7))]),
 "C14": dict(harness=["c14.cpp"], entries=[dict(name="h_dynamic", params=dict(rank=3, dim=3), thorough=dict(rank=4), reach=["end","inside","outside"]), dict(name="h_fixed", params=dict(dim=3), thorough=dict(dim=5), reach=["end","inside","outside"]), dict(name="h_wide", params=dict(bits=16), thorough=dict(bits=20)), dict(name="h_iterate", params=dict(rank=3, dim=2), thorough=dict(dim=3)), dict(name="h_square", thorough=dict(dim=6)), dict(name="h_auto", params=dict(rank=2), thorough=dict(rank=3), reach=["end","refused"]), dict(name="h_auto_bad"), dict(name="h_flatten")]),
 "C15": dict(harness=["c15.cpp"], entries=[dict(name="h_count", reach=["end","too large"]), dict(name="h_combinations", thorough=dict(n=9)), dict(name="h_commuting", thorough=dict(n=6)), dict(name="h_partition", thorough=dict(n=9)), dict(name="h_multi", thorough=dict(sum=6)), dict(name="h_ordered", thorough=dict(n=6, k=5)), dict(name="h_triangular", thorough=dict(n=6, k=5)), dict(name="h_shift", thorough=dict(len=7)), dict(name="h_power", reach=["end","too large"]), dict(name="h_tuple"), dict(name="h_tree"), dict(name="h_chunks"), dict(name="h_kron", thorough=dict(power=4))]),
 "C25": dict(harness=["c25.cpp"], entries=[dict(name="h_tree_signed", params=dict(ops=2), thorough=dict(ops=3)), dict(name="h_tree_unsigned", params=dict(ops=3, hi=1), thorough=dict(hi=2)), dict(name="h_tree_merge", thorough=dict(n=3)), dict(name="h_tree_merge3", fn="h_tree_merge", params=dict(hi=2, n=1), thorough=dict(n=2)), dict(name="h_tree_move"), dict(name="h_store", thorough=dict(ops=5)), dict(name="h_single"), dict(name="h_merge", params=dict(n=2, m=2), thorough=dict(n=3), time=500), dict(name="h_intersect", thorough=dict(n=5,m=5)), dict(name="h_set")]),
 "C23": dict(harness=["c23.cpp"], entries=[dict(name="h_chunks", thorough=dict(n=7, c=5)), dict(name="h_queue", thorough=dict(ops=7))]),
 "C20": dict(harness=["c20.cpp"], entries=[dict(name="h_table", params=dict(last=3), thorough=dict(last=8)), dict(name="h_history", fn="h_table", params=dict(last=0, ops=2, len=1), thorough=dict(last=4)), dict(name="h_multiply", params=dict(last=3)), dict(name="h_multiply3", fn="h_multiply", params=dict(first=5, last=5, triple=1, three=0), thorough=dict(three=1), reach=["end","composite"]), dict(name="h_combine"), dict(name="h_poly", params=dict(nets=0)), dict(name="h_expand", params=dict(nets=3))]),
 "C21": dict(harness=["c21.cpp"], entries=[dict(name="h_extend", thorough=dict(n=3, last=6)), dict(name="h_extend3", fn="h_extend", params=dict(n=3, last=0), thorough=dict(last=2)), dict(name="h_twice", fn="h_extend", params=dict(times=2, last=1, n=1, dict=2), thorough=dict(n=2)), dict(name="h_refuse"), dict(name="h_suggest", params=dict(last=7), reach=["end","suggested"])]),
 "C26": dict(harness=["c26.cpp"], entries=[dict(name="h_history", params=dict(ops=2), thorough=dict(ops=3), reach=["end"]), dict(name="h_history3", fn="h_history", params=dict(ops=3, first=0, last=0), reach=["end","substituted"], thorough=dict(ops=4)), dict(name="h_pauli", thorough=dict(ops=3)), dict(name="h_books", reach=["end","refused"], thorough=dict(ops=5))]),
 "C22": dict(harness=["c22.cpp"], entries=[dict(name="h_basis", reach=["end","refused"]), dict(name="h_substitute", params=dict(rules=1)), dict(name="h_substitute2", fn="h_substitute", params=dict(rules=2, first=0, last=0)), dict(name="h_value", reach=["end","refused"]), dict(name="h_product")]),
 "C27": dict(harness=["c27.cpp"], entries=[dict(name="h_import", reach=["end","refused"], thorough=dict(hi=4)), dict(name="h_history", fn="h_import", params=dict(ops=2, basis=2, f=1), reach=["end","refused"], thorough=dict(hi=4, f=2)), dict(name="h_refuse")]),
 "C28": dict(harness=["c28.cpp"], entries=[dict(name="h_vec", thorough=dict(n=3)), dict(name="h_monolith", thorough=dict(polys=3)), dict(name="h_back", reach=["end","refused"], thorough=dict(n=4)), dict(name="h_rules", reach=["end","oblique"], thorough=dict(layouts=8)), dict(name="h_rules2", fn="h_rules", params=dict(rules=2, n=2, layouts=2), thorough=dict(layouts=8)), dict(name="h_oblique", fn="h_rules", params=dict(oblique=1), thorough=dict(layouts=8, first_dirs=5), reach=["end","oblique"]), dict(name="h_oblique2", fn="h_rules", params=dict(oblique=1, rules=2, n=2, layouts=1, first_dirs=0), thorough=dict(layouts=3, first_dirs=1), reach=["end","oblique"])]),
 "C29": dict(harness=["c29.cpp"], entries=[dict(name="h_arith", thorough=dict(total=4)), dict(name="h_symbols", reach=["end","refused","back"], thorough=dict(len=3))], findings=[dict(name="f_signed", fn="h_signed", match="conjugate word keeps its sign", what="two modes a, b with b a = -a b (and likewise for their conjugates): with <a b> registered, the word a* b* = -(a b)* is looked up as (a b)*, without the sign")]),
 "C18": dict(harness=["c18.cpp"], entries=[dict(name="h_group", reach=["end","refused"], thorough=dict(cap=13)), dict(name="h_perms", fn="h_group", params=dict(n=3, kind=1, gens=3)), dict(name="h_reflect"), dict(name="h_none"), dict(name="h_words"), dict(name="h_lengths"), dict(name="h_product"), dict(name="h_refuse")]),
 "C19": dict(harness=["c19.cpp"], entries=[dict(name="h_core", thorough=dict(rows=4)), dict(name="h_identity"), dict(name="h_lu", reach=["end","empty"], params=dict(cols=3), thorough=dict(lim=2, cols=2)), dict(name="h_solution"), dict(name="h_map", params=dict(free=1), thorough=dict(free=2, terms=1)), dict(name="h_short", fn="h_map", params=dict(len=1, extra=1)), dict(name="h_group", params=dict(two=1, words=3), thorough=dict(words=4), reach=["end","missing","toolong"])],
  findings=[dict(name="f_mixed", fn="h_group", params=dict(known=1, two=0, first=0, last=0), match="Hermitian matrices stay Hermitian", what="free algebra of Hermitian A, B with the symmetry A -> 1-A, words up to 3: the localizing matrix of B at level 1 is Hermitian, its symmetrized image is not (new symbols mix Hermitian and non-Hermitian words)")]),
 "C24": dict(harness=["c24.cpp"], entries=[dict(name="h_single"), dict(name="h_namer"), dict(name="h_utf", thorough=dict(chars=3)), dict(name="h_junk", thorough=dict(units=4)), dict(name="h_valid", thorough=dict(len=4)), dict(name="h_names", reach=["end","refused"]), dict(name="h_default"), dict(name="h_words", params=dict(len=3), thorough=dict(len=4)), dict(name="h_oper"), dict(name="h_symbol", thorough=dict(len=5)), dict(name="h_monomial")]),
}
