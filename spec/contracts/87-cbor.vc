## ---------------------------------------------------------------- generic values and CBOR
#roots C30: ciborium_to_generic_value generic_to_ciborium_value storage::Transaction::hash
#fn ciborium_to_generic_value(value, depth) r
#ens C30: r is Ok <==> from_cv(cbv(*value), depth as int) is Some, r is Ok ==> gv(r->Ok_0) == from_cv(cbv(*value), depth as int)->Some_0
#loop 1 C30: invariant er_1 is None
#loop 1 C30: invariant it_1.items() == its_1@, arr_dec(cbv(*value), depth as int, acc_1@, it_1.pos())
#loop 2 C30: invariant er_2 is None
#loop 2 C30: invariant it_2.items() == its_2@, map_dec(cbv(*value), depth as int, acc_2@, it_2.pos())
#fn generic_to_ciborium_value(value, depth) r
#ens C30: r is Ok <==> supported(gv(*value), depth as int), r is Ok ==> from_cv(cbv(r->Ok_0), depth as int) == Some(gv(*value))
#loop 1 C30: invariant er_1 is None
#loop 1 C30: invariant it_1.items() == its_1@, arr_enc(gv(*value), depth as int, acc_1@, it_1.pos())
#loop 2 C30: invariant er_2 is None
#loop 2 C30: invariant it_2.items() == its_2@, map_enc(gv(*value), depth as int, its_2@, acc_2@, it_2.pos())
