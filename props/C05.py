PROP = dict(
    units=[
        dict(tu='contracts/c05_match.c', fns=['ipmask_check', 'match', 'lemma_star', 'lemma_back', 'lemma_from']),
        dict(tu='contracts/c05_channel.c', fns=['find_ban', 'set_ban_mask', 'make_ban']),
    ],
    witness=dict(src='witness/c05.c', world=True),
    assumptions=['inside find_ban(), what match() answers is a function of its two text arguments (what it answers is proved apart, for every mask and text); the temporary NUL that find_ban writes at the nick!user boundary is not visible to this check', 'how an address or a block of addresses is spelled (ipmask_parse) is taken as given', 'ircd_strncpy() copies; strrchr() finds the last @'],
)
