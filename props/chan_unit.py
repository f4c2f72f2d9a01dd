# the membership predicates of channel.c, proved again in every property that rests on them
def unit(*more):
    return dict(tu='contracts/c07_channel.c', fns=['find_member_link', 'find_channel_member', 'is_chan_op'] + list(more),
                cfg=dict(noeffect=['sendjointo_channel_butserv', 'sendcmdto_capflag_channel_butserv_butone', 'sendcmdto_channel_butserv_butone']))
SPEAK = ['member_can_send_to_channel', 'client_can_send_to_channel', 'RevealDelayedJoin', 'RevealDelayedJoinIfNeeded', 'CheckDelayedJoins']
