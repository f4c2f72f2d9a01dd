NOEFF = ['send_reply', 'is_snomask', 'umode_make_snomask', 'debug', 'atoi', 'strchr', 'feature_str']
PROP = dict(
    units=[
        dict(tu='contracts/c16_umode.c', fns=['set_user_mode', 'hide_hostmask'], cfg=dict(noeffect=NOEFF, noeffect_prefix=['sendcmdto_', 'sendjointo_'])),
    ],
)
PROP['witness'] = dict(src='witness/c16.c', world=True)
