NE = ['send_reply', 'sendto_opmask_butone', 'need_more_params', 'IPcheck_connect_fail', 'feature_str', 'TStime']
PROP = dict(
    units=[
        dict(tu='contracts/c18_nick.c', fns=['do_nick_name', 'm_nick', 'ms_nick'], cfg=dict(noeffect=NE)),
    ],
)
PROP['witness'] = dict(src='witness/c18.c', world=True)
PROP['assumptions'] = ['what the list of reserved nicks says is taken as given']
