NE = ['send_reply', 'TStime', 'atoi', 'base64toip', 'SetRemoteNumNick', 'add_client_to_list', 'add_history', 'auth_set_nick', 'set_user_mode', 'register_user', 'ircd_strcmp']
PROP = dict(
    units=[
        dict(tu='contracts/c02_hash.c', fns=['strhash', 'lemma_hash', 'lemma_samehash', 'hAddClient', 'hAddChannel', 'hRemClient', 'hRemChannel', 'hChangeClient', 'hSeekClient', 'hSeekChannel',
                                             'lemma_first', 'lemma_firstch', 'lemma_found', 'lemma_foundch', 'lemma_skip', 'lemma_unlink']),
        dict(tu='contracts/c02_nick.c', fns=['set_nick_name'], cfg=dict(noeffect=NE, noeffect_prefix=['sendcmdto_'], field_arrays=True)),
        dict(tu='contracts/c02_exit.c', fns=['exit_one_client'], cfg=dict(noeffect=['sasl_session_remove', 'sasl_check_capability', 'uping_cancel', 'auth_cancel_iauth_stats', 'del_invite', 'free_ban', 'set_snomask', 'sline_cleanup_client', 'match', 'feature_str', 'remove_dlink', 'IPcheck_disconnect', 'sendto_opmask_butone', 'MyFree', 'debug', 'free', 'ClearServerYXX'], noeffect_prefix=['sendcmdto_'])),
    ],
    proved_elsewhere={'ircd_strcmp': 'C01'},
)
PROP['witness'] = dict(src='witness/c02.c', world=True)
PROP['assumptions'] = ['an entry is in the index at most once, and an entry with an empty name never is', 'memory of the chains is well-founded (no cycles)', 'the functions set_nick_name calls besides those under contract leave the index alone']
