from C18 import NE
PROP = dict(
    units=[
        dict(tu='contracts/c30_nick.c', fns=['m_nick', 'ms_nick'], cfg=dict(noeffect=NE)),
    ],
    proved_elsewhere={'do_nick_name': 'C18'},
)
PROP['witness'] = dict(src='witness/c30.c', world=True)
PROP['assumptions'] = ['exiting a client does not change the timestamps', 'which user holds the nick is what the name index says (C02)']
