PROP = dict(
    units=[
        dict(tu='contracts/c20_targets.c', fns=['hash_target', 'check_target_limit', 'add_target', 'lemma_rate'], cfg=dict(noeffect=['send_reply'])),
    ],
)
PROP['witness'] = dict(src='witness/c20.c', world=True)
PROP['assumptions'] = ['times lie within 2^40 seconds of 0', 'targets are remembered by eight bits of their address, so two targets can count as the same one (the code says so)',
                       'IsInvited() is under contract in C09']
