NOEFF = ['send_reply', 'feature_bool', 'protocol_violation', 'sendcmdto_one', 'debug', 'get_client_name']
CFG = dict(noeffect=NOEFF, unroll=7, fptr={'parse_client': '&run_handler', 'parse_server': '&run_handler'})
PROP = dict(
    units=[
        dict(tu='contracts/c14_parse.c', fns=['parse_client'], cfg=CFG),
        dict(tu='contracts/c14_lookup.c', fns=['msg_tree_parse']),
        dict(tu='contracts/c14_table.c', fns=['table_lemma'], cfg=dict(const_globals=['msgtab'])),
    ],
    witness=dict(src='witness/c14.c', world=True, wrap=['do_numeric']),
    assumptions=['the command tree is filled from msgtab by add_msg_element (and with pseudo commands by register_mapping) and the table is not changed at run time otherwise'],
)
