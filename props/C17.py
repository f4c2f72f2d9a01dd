import chan_unit
PROP = dict(
    units=[
        dict(tu='contracts/c17_modes.c', fns=['channel_modes'], cfg=dict(noframe=True)),
        dict(tu='contracts/c17_whois.c', fns=['do_whois'], cfg=dict(static_private=True, noframe=True, noeffect=['strlen', 'is_secure_path'])),
        dict(tu='contracts/c17_names.c', fns=['do_names'], cfg=dict(noframe=True, noeffect=['strlen'])),
        dict(tu='contracts/c17_mnames.c', fns=['m_names'], cfg=dict(noframe=True, noeffect=['strlen', 'strchr', 'ircd_strcmp'])),
        dict(tu='contracts/c17_list.c', fns=['param_parse'], cfg=dict(noframe=True, noeffect=['strlen', 'strchr'])),
        dict(tu='contracts/c17_mlist.c', fns=['m_list', 'list_set_default'], cfg=dict(noframe=True, noeffect=['strlen', 'strchr', 'ircd_strcmp', 'update_write', 'feature_str', 'number_of_zombies'])),
        dict(tu='contracts/c17_next.c', fns=['list_next_channels'], cfg=dict(noframe=True, noeffect=['match', 'get_sendq'])),
        dict(tu='contracts/c17_who.c', fns=['m_who'], cfg=dict(field_arrays=True, noframe=True, static_private=True, noeffect=['strlen', 'strchr', 'feature_bool', 'log_write', 'markMatchexServer'])),
        dict(tu='contracts/c17_dowho.c', fns=['do_who'], cfg=dict(noframe=True, static_private=True, noeffect=['feature_bool', 'feature_str'])),
        chan_unit.unit(),
    ],
)
PROP['witness'] = dict(src='witness/c17.c', world=True)
PROP['assumptions'] = ['a user of this server never is a zombie on a channel: a KICK takes him off at once (C10: make_zombie)', 'the members of a channel and the channels of a user are consistent lists (add_user_to_channel, remove_member_from_channel)',
    'static buffers are not pointed to from elsewhere, and array accesses stay inside the array (field_arrays, static_private)', 'what channel_modes() and do_who() write stays within the buffers they are given']

