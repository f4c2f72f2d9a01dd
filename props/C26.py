NE = ['send_reply', 'sendto_opmask_butone', 'debug', 'get_client_name', 'log_write']
PROP = dict(
    units=[
        dict(tu='contracts/c26_gline.c', fns=['gline_lookup', 'do_gline'], cfg=dict(noeffect=NE)),
        dict(tu='contracts/c26_gline.c', extra=['-DMODIFY'], fns=['gline_modify'], cfg=dict(noeffect=NE + ['ircd_snprintf', 'ircd_strncmp', 'DoMalloc', 'DoFree', 'strcpy', 'strlen'])),
        dict(tu='contracts/c26_gline.c', extra=['-DADD'], fns=['gline_add'], cfg=dict(noeffect=NE + ['ircd_strncmp', 'protocol_violation', 'feature_int', 'strlen'])),
        dict(tu='contracts/c26_gline.c', extra=['-DMAKE'], fns=['make_gline', 'gline_propagate'], cfg=dict(noeffect=NE + ['strcpy', 'strlen'])),
        dict(tu='contracts/c26_glist.c', fns=['gline_find', 'gline_burst'], cfg=dict(noeffect=NE + ['strlen', 'DoFree'])),
        dict(tu='contracts/c26_glist.c', extra=['-DRESEND'], fns=['gline_resend'], cfg=dict(noeffect=NE)),
        dict(tu='contracts/c26_glist.c', extra=['-DFREE'], fns=['gline_destroy'], cfg=dict(noeffect=NE)),
        dict(tu='contracts/c26_glist.c', extra=['-DCUT'], fns=['canon_userhost', 'gline_free'], cfg=dict(noeffect=NE + ['DoFree'])),
        dict(tu='contracts/c26_msgline.c', fns=['ms_gline'], cfg=dict(noeffect=NE + ['need_more_params'])),
        dict(tu='contracts/c26_kill.c', fns=['find_kill', 'attach_iline'], cfg=dict(noeffect=NE + ['killcomment'])),
        dict(tu='contracts/c26_kill.c', extra=['-DREHASH'], fns=['rehash'], cfg=dict(noeffect=NE + ['motd_clear', 'clearNickJupes', 'class_mark_delete', 'mark_listeners_closing', 'auth_mark_closing', 'webirc_mark_stale', 'close_mappings', 'restart_resolver', 'log_reopen', 'ircd_tls_rehash', 'auth_close_unused', 'close_listeners', 'class_delete_marked', 'webirc_remove_stale'])),
    ],
)
PROP['witness'] = dict(src='witness/c26.c', world=True)
PROP['assumptions'] = ['a G-line not yet reached in a walk over the list is as it was at the start of the walk (dropping an expired record touches only that record and its neighbours\' links)', 'a record is in one list, once', 'removing one local user takes only him out of the table of connections', 'match() and ipmask_check() decide whether a mask covers a text or address (C05 has both under contract)', 'reading the configuration file itself; the limits on how many users an operator\'s G-line may cover']
