NOEFF = ['send_reply', 'feature_bool', 'protocol_violation', 'sendcmdto_one', 'debug', 'get_client_name']
PROP = dict(
    units=[
        dict(tu='contracts/c14_parse.c', fns=['parse_server'], cfg=dict(noeffect=NOEFF, unroll=7, fptr={'parse_client': '&run_handler', 'parse_server': '&run_handler'})),
        dict(tu='contracts/c14_lookup.c', fns=['msg_tree_parse']),
    ],
    witness=dict(src='witness/c23.c', world=True, wrap=['do_numeric']),
    assumptions=['which user or server a name or numeric stands for is the business of the lookups (C02, C03)'],
)
