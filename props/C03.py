PROP = dict(
    units=[
        dict(tu='contracts/c03_numnick.c', fns=['base64toint', 'inttobase64', 'lemma_codec', 'FindXNServer', 'FindNServer', 'findNUser', 'RemoveYXXClient', 'SetLocalNumNick', 'SetRemoteNumNick', 'SetYXXServerName', 'ClearServerYXX', 'SetServerYXX', 'SetYXXCapacity'],
             cfg=dict(noeffect=['debug', 'fprintf'], const_globals=['convert2n', 'convert2y'], fuel=8)),
        dict(tu='contracts/c02_exit.c', fns=['exit_one_client'], cfg=dict(noeffect=['sasl_session_remove', 'sasl_check_capability', 'uping_cancel', 'auth_cancel_iauth_stats', 'del_invite', 'free_ban', 'set_snomask', 'sline_cleanup_client', 'match', 'feature_str', 'remove_dlink', 'IPcheck_disconnect', 'sendto_opmask_butone', 'MyFree', 'debug', 'free'], noeffect_prefix=['sendcmdto_'])),
    ],
)
PROP['witness'] = dict(src='witness/c03.c', world=True)
PROP['assumptions'] = ['a server announces numerics of 3 or 5 digits; the capacity of a server is below 2^18 (three digits)',
                       'a table of users, the table of servers and the text of a numeric lie in different memory; calloc() gives fresh zeroed memory',
                       'exit_client() of the former holder of a place touches no other place', 'a text is shorter than 64 kB (FindNServer() keeps its length in an int)']
