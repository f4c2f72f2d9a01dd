PROP = dict(
    units=[
        dict(tu='contracts/c01_string.c', fns=['ircd_strcmp', 'ircd_strncmp', 'lemma_order_same', 'lemma_order_trans', 'lemma_tables']),
        dict(tu='contracts/c01_hash.c', fns=['strhash', 'lemma_hash', 'lemma_samehash']),
    ],
    witness=dict(src='witness/c01.c', ircd=True),
    assumptions=['strings are NUL-terminated within their objects', 'ToLowerTab_8859_1 as regenerated from the current table_gen.c'],
)
