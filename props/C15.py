NOEFF = ['send_reply', 'need_more_params', 'sendto_opmask_butone', 'log_write', 'MyFree', 'debug', 'protocol_violation']
PROP = dict(
    units=[
        dict(tu='contracts/c15_privs.c', fns=['client_set_privs'], cfg=dict(unroll=70)),
        dict(tu='contracts/c15_oper.c', fns=['m_oper', 'ms_oper', 'oper_password_match'], cfg=dict(noeffect=NOEFF)),
        dict(tu='contracts/c15_conf.c', fns=['find_conf_exact', 'is_attached', 'attach_conf']),
        dict(tu='contracts/c15_opmode.c', fns=['ms_opmode'], cfg=dict(noeffect=NOEFF + ['modebuf_flush'])),
    ],
)
PROP['witness'] = dict(src='witness/c15.c', world=True, wrap=['ircd_crypt', 'find_remote_oper_class'])
PROP['assumptions'] = ['the password hash functions (ircd_crypt and its mechanisms) are taken as given', 'the privileges of a connection, of the configuration and the default tables are different objects in memory', 'every Operator block has a class', 'the comparison and mask functions are given by their own contracts (C01, C05)']
