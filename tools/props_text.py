TECH = 'contract-based deductive verification (function contracts and loop invariants on the real C code, VCs discharged by z3/cvc5)'
LEVELNOTE = ('Every obligation generated from the current source is discharged for all inputs, without bounds; trusted: the goto-cc front end, the VC generator in /verif/vcgen, '
             'z3/cvc5, and the contracts assumed on external functions, which each run lists in the evidence file. A failed obligation is replayed by a native driver linked with the real objects.')
NOTES = 'One driver (vcgen/check.py) for all checks; contracts in contracts/, property configurations in props/, replay drivers in witness/.'


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note='', na=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             observe_at=list(observe), hook_needed=None), note=note, na=na)


P = [
 prop('C01', 'Names are compared and indexed under one casemapping',
      'Two nicknames, server names or channel names are treated as the same name exactly when they agree byte for byte under the network casemapping (A-Z[\\]^ fold to a-z{|}~, and the ISO 8859-1 capitals C0-DE except D7 fold to E0-FE). '
      'Case-insensitive comparison is a total order on folded names, length-limited comparison looks at no more than the given number of bytes, and names that are the same always fall into the same bucket of the name index.',
      ['inputs'], 'all pairs of NUL-terminated strings, all lengths, all 256 byte values',
      'the unit tests compare a few dozen hand-picked ASCII strings; the property is about every pair of strings of every length',
      ['ircd/ircd_string.c', 'ircd/hash.c', 'ircd/table_gen.c'],
      [('ircd_strcmp / ircd_strncmp', 'ircd/ircd_string.c'), ('strhash', 'ircd/hash.c'), ('ToLowerTab_8859_1', 'ircd/table_gen.c')]),
 prop('C03', 'A numeric names the user or server it was given to, and nobody else',
      'Numerics are written in base 64 with the digits A-Z a-z 0-9 [ ] and read back as the same number (2 digits for servers, 3 for users and capacities, 6 for an IPv4 address). A server that joins is found under its numeric from then on and under no other, until it leaves; the places of other servers do not change. '
      'A new local user gets a numeric whose place was free; a user announced by another server gets the place that server gave, and whoever had it is removed first; in both cases the numeric of the server and of the user together find this user until the user leaves, and the places of all other users stay as they are. Looking up an empty numeric finds nobody, and no numeric, whatever its text, leads outside the table of servers or of its server\'s users.',
      ['inputs', 'histories'], 'all numbers, all texts as numerics, all tables of servers (4096) and users (any capacity below 2^18), any other place in the tables',
      'the tests link a few servers with a few users; a wrong place shows only when tables are crowded, capacities differ between servers, or numbers use the higher digits',
      ['ircd/numnicks.c', 'ircd/s_misc.c'],
      [('base64toint, inttobase64', 'ircd/numnicks.c'), ('FindNServer, findNUser', 'ircd/numnicks.c'), ('SetLocalNumNick, SetRemoteNumNick, RemoveYXXClient', 'ircd/numnicks.c'), ('SetYXXServerName, SetServerYXX, SetYXXCapacity, ClearServerYXX', 'ircd/numnicks.c'), ('exit_one_client', 'ircd/s_misc.c')]),
 prop('C04', 'An address arrives at other servers as it was sent, and its text names it',
      'The IP address that a server writes into the introduction of a user is read by the receiving server as the same address, for each of the 2^128 addresses: eight words of three base 64 digits, of which the first longest run of zero words may be one underscore; IPv4 addresses (mapped, or the deprecated ::a.b.c.d form with a nonzero upper half) travel as six digits and arrive in their mapped form, 0.0.0.0 as the unspecified address. '
      'To a server that does not know IPv6, an IPv4 address is sent as it is, a 6to4 address as the IPv4 address in it, and any other as 0.0.0.0. The text never takes more than its 25 bytes, and reading it never writes outside the address. The readable text of an IPv6 address (shown to users, matched by bans) is its eight words in hexadecimal without leading zeros, separated by colons, of which at most one run of zero words behind the first word is left out as "::"; it fits its 40 bytes.',
      ['inputs'], 'all 2^128 addresses, receiving servers with and without IPv6',
      'the tests (and any sample) convert a few addresses; the position and the length of the zero run are computed from the pattern of zero words, and a wrong count shows only for particular patterns of several runs',
      ['ircd/numnicks.c', 'ircd/ircd_string.c'],
      [('iptobase64, base64toip', 'ircd/numnicks.c'), ('ircd_ntoa_r', 'ircd/ircd_string.c')]),
 prop('C05', 'A ban covers exactly the addresses and masks it names; an exception wins',
      'A client is banned by a ban list exactly when some ban entry covers it and no exception entry covers it, in whatever order the entries stand; an entry covers a client when its nick!user part matches and its host part matches the visible host, the IP text, the real or account host, or - for an address mask - when exactly the first N bits of the addresses agree. A mask matches a text when each of its characters stands for itself under the casemapping, except * (any text, also none), ? (any one character) and \\x (exactly x); a backslash at its very end matches nothing.',
      ['inputs'], 'all ban lists of any length and order, all addresses, all prefix lengths 0-128, all client states',
      'tests try a handful of masks; the CIDR comparison has 2^256*129 inputs and the list decision depends on order and flags of an unbounded list',
      ['ircd/match.c', 'ircd/channel.c'],
      [('match, ipmask_check', 'ircd/match.c'), ('find_ban, set_ban_mask, make_ban', 'ircd/channel.c')]),
 prop('C07', 'Only those entitled to speak on a channel are relayed to it',
      'A PRIVMSG, NOTICE, TAGMSG, WALLCHOPS or WALLVOICES that a local user sends to a channel is handed to the channel exactly when the user may speak there: a non-zombie member speaks if opped or voiced (except a channel manager while an Apass is set), else only if the channel is not +m, not +M/+r without the user having an account, not +Z without the user being on TLS, and the user is not banned; '
      'anyone else speaks only if the channel is not +n, +m, nor +M/+r (without account), +Z (without TLS), and no ban covers them. In a +n channel the sender must also pass the target-change limit, PRIVMSG and NOTICE to a +c channel carry no colour (\\003) or escape (\\033) byte, and to a +C channel no CTCP byte (\\001) unless the text begins with "\\001ACTION ". '
      'What is handed over is that text, once, to that channel, with the sender as source; messages arriving from other servers are relayed when the source may speak or is a channel service, and never to a local (&) channel.',
      ['inputs', 'histories'], 'all channel modes, membership states, ban lists, account/TLS states and texts of any length; local and remote sources',
      'the functional tests send a few dozen messages; the decision depends on the product of channel modes, membership flags, bans, account and TLS state, and on every byte of the text',
      ['ircd/channel.c', 'ircd/ircd_relay.c', 'ircd/m_wallchops.c', 'ircd/m_wallvoices.c'],
      [('client_can_send_to_channel, member_can_send_to_channel, find_member_link', 'ircd/channel.c'), ('relay_channel_message/notice/tagmsg, server_relay_channel_*', 'ircd/ircd_relay.c'), ('m_wallchops, ms_wallchops', 'ircd/m_wallchops.c'), ('m_wallvoices, ms_wallvoices', 'ircd/m_wallvoices.c')]),
 prop('C08', 'A private message reaches its target when the target lets the sender through',
      'A PRIVMSG, NOTICE or TAGMSG to an existing user is sent to that user once, with the sender as source and the text unchanged, exactly when (for a local sender, unless the target is a +k service) the target-change limit allows it, the target has not silenced the sender, the target is not +R while the sender has no account, and the target is not +c while they share no channel on which the sender is neither kicked nor hidden and the target not kicked; '
      'servers, +k services, IRC operators and the target itself are exempt from +R and +c. Otherwise nothing is sent to the target. nick@server messages go only to services servers, and on this server only to a local +k service whose host matches, under the same +R and silence rules; CPRIVMSG/CNOTICE only from an opped or voiced member of the named channel to a non-kicked member of it. Of the names in a list of targets, each is handled exactly once, as a channel (# or &), as a mask ($, from IRC operators only), as nick@server or as a nick; TAGMSG is refused to a local client that did not negotiate message-tags. A message to $mask goes once, with its text, to the servers (or, as $@mask, hosts) that match, and, from a local operator, only if no wildcard stands behind the last dot of the mask.',
      ['inputs', 'histories'], 'all names and texts, all flag, account, silence and membership states of sender and target, channel lists of any length, local and remote senders',
      'the tests exercise single flags one at a time; the decision combines flags of both users with two unbounded channel lists and is repeated in nine relay functions that must agree',
      ['ircd/ircd_relay.c', 'ircd/s_user.c', 'ircd/m_privmsg.c', 'ircd/m_notice.c', 'ircd/m_tagmsg.c'],
      [('relay_private_*, server_relay_private_*, relay_directed_*, has_common_channel', 'ircd/ircd_relay.c'), ('is_silenced, should_block_unauth_user, whisper', 'ircd/s_user.c'), ('m_, mo_ and ms_ of privmsg, notice, tagmsg', 'ircd/m_privmsg.c, ircd/m_notice.c, ircd/m_tagmsg.c'), ('relay_masked_*, server_relay_masked_*', 'ircd/ircd_relay.c')]),
 prop('C10', 'Only a channel operator removes others from a channel by KICK',
      'A KICK by a local user removes its target exactly when the kicker is an opped, non-kicked member of the channel, and the target is a non-kicked member, is not a +k service, is not (on a local & channel) an operator privileged against it, and is not protected by its op level (a lower level than the kicker\'s, or the same level below 999). '
      'A KICK from another server removes a non-kicked member exactly when its source is a server, or holds ops on the channel, or the victim lies in the direction the KICK came from; otherwise it is bounced. A KICK that takes effect (and a remote KICK that is not bounced) is passed once to the other servers, except for local channels, naming that channel and that user; nothing else is. '
      'A kicked local user leaves the channel at once; a kicked remote user is at least marked as kicked, and a channel never keeps only kicked users.',
      ['inputs', 'histories'], 'all channel names, targets, membership lists of any length, op levels, flags and link directions',
      'the tests kick a couple of ordinary users; the decision depends on op levels, zombie states, services, privileges and on where in the server tree the victim is',
      ['ircd/m_kick.c', 'ircd/channel.c'],
      [('m_kick, ms_kick', 'ircd/m_kick.c'), ('make_zombie, channel_all_zombies, find_member_link, find_chasing, get_channel', 'ircd/channel.c')],
      [('Membership.status CHFL_ZOMBIE', 'kicked, waiting for its server to confirm', 'include/channel.h'), ('Membership.oplevel', 'op level', 'include/channel.h')]),
 prop('C20', 'A user reaches only so many new targets in a time',
      'A local user who addresses a user or channel that is not among the last 20 targets remembered for him is let through only if his allowance is not used up, that is, if the time of his next target has come, or if it is a channel he was invited to; every new target costs 128 seconds of that time, of which at most 19 new targets\' worth can be saved up, so that after a new target he can reach at most 20 more, and beyond that one for every 128 seconds. '
      'Remembered targets are always free and come to the front in their order; the oldest is forgotten for a new one. A refused attempt changes nothing but the time (2 seconds later, while it lies less than 136 seconds ahead). Whoever writes to a user is remembered by him at the 13th place, so that he can be answered freely, without displacing the first 12.',
      ['inputs', 'histories'], 'all states of the remembered targets and of the allowance, all times within 2^40 seconds, all targets',
      'the tests send to a handful of targets; the order of the remembered ones and the saved-up time matter only after many',
      ['ircd/s_user.c'],
      [('check_target_limit, add_target', 'ircd/s_user.c')]),
 prop('C21', 'A channel topic is set and shown only as the channel allows',
      'A TOPIC by a local user sets the topic of each named channel exactly when the user is a non-kicked member of it, opped if the channel is +t, and may speak there (C07); a query is answered with the topic unless the channel is +s and the user not a member. '
      'A topic from another server is taken over exactly when the channel exists, is not local, is not older here than the given channel time stamp, and its topic is not newer than the given topic time stamp. '
      'Setting stores the first 160 bytes and the setter, never moves the topic time back unless a time is given, passes the topic once to the other servers unless the channel is local, and shows it once to the channel exactly when it differs.',
      ['inputs', 'histories'], 'all parameter lists with any number of names, all channel modes, membership states, bans and time stamps',
      'the tests set a few topics; the rules combine modes, membership, speech rights, time stamps and lists of names of any length',
      ['ircd/m_topic.c', 'ircd/channel.c'],
      [('m_topic, ms_topic, do_settopic', 'ircd/m_topic.c'), ('client_can_send_to_channel, is_chan_op, find_channel_member', 'ircd/channel.c')],
      [('Channel.topic, topic_nick, topic_time', 'the topic, who set it and when', 'include/channel.h')]),
 prop('C22', 'Only a channel operator can invite, and only someone who takes it',
      'An INVITE by a local user for an existing channel takes effect exactly when the user is an opped, non-kicked member of it, the target is not a non-kicked member, has not silenced the user, is not +R against a user without account (services, operators and oneself exempt), and the target-change limit allows it; '
      'an INVITE from another server for an existing global channel takes effect exactly when its source is a user who is a +k service or a non-kicked member, the given time stamp is not later than the channel\'s (without one: the link is not bursting), and the same holds for the target. '
      'When it takes effect a local target is recorded as invited to exactly that channel and told once; a remote target is sent it once unless the channel is local; otherwise nobody is invited or told.',
      ['inputs', 'histories'], 'all names, membership lists of any length, modes, flags, silence lists and time stamps',
      'the tests invite a user or two; the decision depends on both users\' flags, the silence list, membership lists of any length, time stamps and burst state',
      ['ircd/m_invite.c', 'ircd/s_user.c', 'ircd/channel.c'],
      [('m_invite, ms_invite', 'ircd/m_invite.c'), ('is_silenced, should_block_unauth_user', 'ircd/s_user.c'), ('find_channel_member, is_chan_op', 'ircd/channel.c')]),
 prop('C09', 'A JOIN succeeds exactly when name, key and channel state allow it',
      'A local user joining a list of names gets into each one exactly when the name is a valid channel name, the user is on fewer channels than the limit (or privileged), no active BADCHAN G-line stands for it (operators excepted), the user is not yet on it, the target-change limit allows it (where it applies to joins), and either: the channel does not exist and the name is not too long, nor local while local channels are off; '
      'or the key given for it is the channel\'s Apass or Upass; or nobody is left on the channel and it has no Apass; or the user is invited; or the channel is not +i, not at its limit, not +r without the user having an account, not banning the user, its key (if any) given, and not +Z without the user being on TLS; or, on a local channel, a privileged operator gives the key OVERRIDE where entry would be refused. '
      'The n-th key counts for the n-th name. Whoever creates the channel or gives the Apass enters as opped channel manager, whoever gives the Upass or enters a deserted channel as operator, all others without ops; on a +D channel those without ops enter unseen. A successful join uses up the invitation and is announced once to the channel and, unless it is local, to the other servers; topic and member names are shown only to those who get in.',
      ['inputs', 'histories'], 'all name and key lists of any length, all channel modes, keys, limits, bans, invitations and member lists, all user flags and privileges',
      'the tests join a few channels with a few modes; the decision is the product of a dozen conditions, with key lists walked in step with name lists',
      ['ircd/m_join.c', 'ircd/channel.c'],
      [('m_join, last0, check_target_join', 'ircd/m_join.c'), ('joinbuf_join, add_user_to_channel, IsInvited, find_member_link', 'ircd/channel.c')],
      [('Channel.mode, banlist, users', 'what entry depends on', 'include/channel.h'), ('User.invited', 'open invitations', 'include/struct.h')]),
prop('C11', 'A channel MODE takes effect only for those entitled to change modes',
      'A MODE on a channel takes effect exactly when its source is a server, or an opped member of the channel, or (on a local & channel) a local user privileged for that; from a local user without standing it changes nothing at all, from a remote one it is bounced and changes no mode, limit, key, password, ban or member status. '
      'When it takes effect, simple modes follow the letters in order (the last direction of a letter wins, +s and +p exclude each other), +R is beyond a local user (except by privilege); a limit is a positive number and changes once per message; a key or password has 1 to 23 characters, no control character, space or comma, and does not begin with a colon; '
      'in his own right a channel operator adds a key only where there is none and removes it only by naming it; the Apass and Upass are changed only by the channel manager (or a privileged operator), the Upass only under an Apass and different from it, the Apass removed only after the Upass and, on a channel older than 48 hours, only by an operator. Removing the Apass clears the Upass and all op levels; setting it puts its setter at level 0. '
      'Bans come and go only with authority, a change of them makes every remembered ban decision stale, and nothing of a change that is not processed stays behind.',
      ['inputs', 'histories'], 'all mode strings and parameters of any length, all channel states, members, flags and privileges; local, remote and server sources',
      'the tests set a few modes as op; the parser interprets arbitrary strings with a dozen parameterised letters, five source kinds and state carried from letter to letter',
      ['ircd/m_mode.c', 'ircd/channel.c'],
      [('m_mode, ms_mode', 'ircd/m_mode.c'), ('mode_parse, mode_parse_limit/key/upass/apass/ban/mode, is_clean_key, mode_process_bans', 'ircd/channel.c')],
      [('Channel.mode (mode, limit, key, upass, apass)', 'the channel modes', 'include/channel.h'), ('Channel.banlist', 'the bans', 'include/channel.h')]),
 prop('C12', 'Ops and voices change only as requested and op levels allow',
      'Each +o, -o, +v or -v of a channel MODE that takes effect (C11) changes the status of the named member in exactly that respect and of nobody else. '
      'A local operator cannot deop a +k service, nor on a local & channel an operator privileged against it, nor a member whose op level is below his own (or equal and below 999); he may always deop himself. He can hand out only levels above his own (or his own from 999 on), up to 999; without a level the new operator gets his own level plus one, at most 999. '
      'Opping someone already opped, or deopping someone not opped, has no effect. A change that is made is passed on once, one that is not made is not.',
      ['inputs', 'histories'], 'all lists of changes, members, op levels 0-999 and beyond, flags and privileges; local, remote and server sources, bounced changes',
      'the tests op and deop ordinary members; the rules depend on both members\' levels and flags, on where the source is and on earlier changes in the same message',
      ['ircd/channel.c'],
      [('mode_parse_client, mode_process_clients, RevealDelayedJoin, CheckDelayedJoins', 'ircd/channel.c')],
      [('Membership.status, oplevel', 'ops, voices and op levels', 'include/channel.h')]),
 prop('C13', 'An operator command is carried out only with the privilege for it',
      'From a local operator, DIE, RESTART and REHASH are carried out exactly when he is privileged for them, REHASH reloading what its parameter names (MOTD, logs, TLS files, or the configuration) and nothing else. '
      'KILL ends exactly the named user\'s session (found under the name or through the nick history) and exactly when the target is no server, no +k service, and the operator has the privilege for local or remote kills as the target is here or elsewhere; a remote target\'s KILL is passed on once; a KILL from a server is carried out and passed on to the other servers. '
      'OPMODE and CLEARMODE force modes on exactly the named existing channel, exactly when operator commands are on, the operator has the privilege for local or global channels, and the channel is not quarantined - or he writes ! and has the privilege to force; a CLEARMODE from a server needs a server or operator as source and a global channel. '
      'A JUPE or GLINE of this server alone takes the local privilege, one for another server or for all takes the global one and operator commands on; a JUPE does exactly what it asks for (create, activate, deactivate, forward); a GLINE adds, changes or destroys as its sign says, and may exceed the limits on its mask exactly when asked with ! by someone privileged for that. SET and RESET change nothing without the privilege.',
      ['inputs', 'histories'], 'all privilege sets, parameters of any content, target users, channels, jupes and G-lines in any state, operator commands on or off',
      'the tests use a fully privileged operator; each refusal depends on one of fifteen privileges together with where the target is',
      ['ircd/m_die.c', 'ircd/m_restart.c', 'ircd/m_rehash.c', 'ircd/m_kill.c', 'ircd/m_opmode.c', 'ircd/m_clearmode.c', 'ircd/m_jupe.c', 'ircd/m_gline.c', 'ircd/ircd_features.c'],
      [('mo_die, mo_restart, mo_rehash', 'ircd/m_die.c, m_restart.c, m_rehash.c'), ('mo_kill, ms_kill', 'ircd/m_kill.c'), ('mo_opmode', 'ircd/m_opmode.c'), ('mo_clearmode, ms_clearmode', 'ircd/m_clearmode.c'), ('mo_jupe', 'ircd/m_jupe.c'), ('mo_gline', 'ircd/m_gline.c'), ('feature_set, feature_reset', 'ircd/ircd_features.c')],
      [('Connection.con_privs', 'the privileges of a local operator', 'include/client.h')]),
 prop('C14', 'A line from a client runs the handler of its command, for that client',
      'For every line from a connection that is not a server link: at most one handler runs; it is the handler that the command table gives for the word the line begins with (after any prefix, which is ignored) in the column of what that connection is (unregistered, user, operator), it runs on behalf of that same connection whatever prefix the line carries, with at most fifteen arguments after the name and a null pointer after them; a line that begins with no known command runs nothing. '
      'The table gives an unregistered connection no more than registration, QUIT, PONG and information about the server; an ordinary user no handler of operators or servers, and an operator no handler of servers.',
      ['inputs'], 'all byte strings as lines, all kinds of connection, the whole command table, command trees of any shape',
      'the tests send well-formed lines of a few commands; dispatch on forged prefixes and over-long argument lists depends on every byte',
      ['ircd/parse.c'],
      [('parse_client', 'ircd/parse.c'), ('msg_tree_parse', 'ircd/parse.c'), ('msgtab', 'ircd/parse.c')],
      [('msg_tree', 'which command a word stands for', 'ircd/parse.c')]),
 prop('C23', 'A server link can only speak for what is behind it',
      'For every line from a server link: a handler runs only on behalf of a user or server that the prefix names and that is reached through that very link, or on behalf of the link itself when the prefix is missing or names nothing known here; a name of a user or server elsewhere runs nothing. The prefix is read as a server or nick name after a colon, as a server numeric when one or two characters long, as a user numeric otherwise. At most one handler runs, with at most fifteen arguments, and it is the one the command table gives for the token or command word in the column of that connection.',
      ['inputs', 'histories'], 'all byte strings as lines, all networks of users and servers',
      'the tests link one honest server; a forged direction needs two servers and a prefix that belongs elsewhere',
      ['ircd/parse.c'],
      [('parse_server', 'ircd/parse.c'), ('msg_tree_parse', 'ircd/parse.c')],
      [('Connection.con_client', 'the link through which a user or server is reached', 'include/client.h')]),
 prop('C15', 'Operator status and privileges only through a matching Operator block',
      'A local user who sends OPER becomes an operator exactly when the first Operator block whose name, user name mask, host or address mask admit him and which has room in its class is not disabled, the TLS fingerprint it asks for (if any) is his, the password he gives hashes to the one stored, and attaching it succeeds; he is then a global operator exactly when that block (or its class, or the default) grants PROPAGATE, a local one otherwise, and the network is told of it exactly when global. Otherwise his flags, handler and privileges stay as they were. '
      'His privileges are, one by one, what the block says, else what its class says, else the default for his kind; a local operator never has the network-wide privileges KILL, GLINE, JUPE, OPMODE and BADCHAN, a global one is always displayed. A client who is no operator has none. '
      'A server makes or unmakes an operator of one of this server\'s users (OPMODE +o, -o) exactly when the link lists it as U-lined with that right; unmaking takes away handler and privileges. A class never holds more connections than its limit.',
      ['inputs', 'histories'], 'all configurations of operator blocks and classes, all passwords and fingerprints, all privilege sets, all users and servers',
      'the tests use one operator block with full privileges; each condition and each privilege can fail alone',
      ['ircd/m_oper.c', 'ircd/client.c', 'ircd/s_conf.c', 'ircd/m_opmode.c'],
      [('m_oper, ms_oper, oper_password_match', 'ircd/m_oper.c'), ('client_set_privs', 'ircd/client.c'), ('find_conf_exact, attach_conf, is_attached', 'ircd/s_conf.c'), ('ms_opmode, make_oper, de_oper', 'ircd/m_opmode.c')],
      [('Connection.con_privs', 'the privileges of a local operator', 'include/client.h'), ('GlobalConfList', 'the configured blocks in order', 'ircd/s_conf.c')]),
 prop('C16', 'A user cannot give himself operator, service, account or TLS marks',
      'A MODE from a user for himself, whatever letters and parameters it has, changes no mark but his settable modes: he gains none of +o, +O, +k, +r (account), +z (TLS), loses none of +r, +z, +x once there, and gains none of the modes the configuration keeps for operators unless he is an operator when the message has been processed. '
      'The hidden host comes into place exactly when host hiding and an account are both there, for local users only when host hiding is configured. When the message leaves him without operator status, his operator handlers, his privileges and his Operator block are gone with it; otherwise they stay as they were. '
      'The counts of operators and invisible users follow the changes exactly, and every change goes out once.',
      ['inputs', 'histories'], 'all mode strings and parameter lists of any length, all prior modes and privileges, all feature settings',
      'the tests set a few modes; the letters interact (added and taken back in one string), and the rules are applied after the whole string',
      ['ircd/s_user.c'],
      [('set_user_mode, hide_hostmask', 'ircd/s_user.c')],
      [('Client.cli_flags', 'the user modes', 'include/client.h'), ('Connection.con_handler, con_privs', 'operator commands and privileges', 'include/client.h')]),
 prop('C17', 'Secret channels, keys, hidden hosts and hidden members are not disclosed',
      'What WHOIS, NAMES, LIST, WHO and MODE tell a user: WHOIS names a +s or +p channel only to those on it (and & channels to global operators), and never one the user was kicked from; NAMES lists the members of a +s or +p channel only to those on it, leaves out members who were kicked and (unless asked for with -D) members whose join is still hidden, and shows invisible users only to those on the channel with them; LIST shows a +s or +p channel only to those on it or to operators with the privilege for that, and its modes only to the latter; WHO shows someone as on a +s channel only to those on that channel or to operators with the privilege for that, and when asked about users rather than channels names no +s or +p channel the asker does not share. '
      'The key of a channel is told only to its operators and to servers, the Apass only to servers, the Upass only to servers and the channel managers. '
      'The real host and address of a user with a hidden host are shown in WHOIS and WHO, and used for matching in WHO, only for operators and the user himself.',
      ['inputs', 'histories'], 'all channels, modes, memberships, users, flags and privileges; all masks, flags and parameters of the queries',
      'the tests query a few public channels; each leak is one condition in one of nine loops',
      ['ircd/m_whois.c', 'ircd/m_names.c', 'ircd/m_list.c', 'ircd/hash.c', 'ircd/m_who.c', 'ircd/whocmds.c', 'ircd/channel.c', 'ircd/m_mode.c'],
      [('do_whois', 'ircd/m_whois.c'), ('m_names, do_names', 'ircd/m_names.c'), ('m_list, param_parse, list_set_default', 'ircd/m_list.c'), ('list_next_channels', 'ircd/hash.c'), ('m_who', 'ircd/m_who.c'), ('do_who', 'ircd/whocmds.c'), ('channel_modes, find_channel_member, is_chan_op', 'ircd/channel.c')],
      [('Channel.mode', '+s, +p, key, Apass, Upass', 'include/channel.h'), ('User.realhost, Client.cli_ip', 'what +x hides', 'include/struct.h')]),
 prop('C02', 'Names are found under any spelling, and only while somebody has them',
      'Looking up a user, server or channel by name finds, in whatever case the name is given, the one registered under it (with one of the states asked for) if there is one, and nothing if there is none; adding, removing and renaming an entry never loses, hides or duplicates any other entry, and looking something up changes nothing about what is found later. '
      'A nick changes only while its owner is out of the index, and he is back in it under the new nick when the change is done; whoever leaves is taken out of the index (a user also out of the index of numerics and of all channels) before his record is released.',
      ['inputs', 'histories'], 'all names, all contents of the index, all orders of additions, removals, renames and look-ups; entries sharing a bucket',
      'the tests register a few names that never share one of the 32000 buckets, so the chain handling (moving a found entry to the front, removing from the middle) is never reached',
      ['ircd/hash.c', 'ircd/s_user.c', 'ircd/s_misc.c'],
      [('hAddClient, hRemClient, hChangeClient, hSeekClient, hAddChannel, hRemChannel, hSeekChannel', 'ircd/hash.c'), ('set_nick_name', 'ircd/s_user.c'), ('exit_one_client', 'ircd/s_misc.c')],
      [('clientTable, channelTable, cli_hnext, hnext', 'the index', 'ircd/hash.c')]),
 prop('C18', 'A nick is valid, not reserved, and not longer than allowed',
      'A nick is taken, by a local user or by one from the network, only if it is non-empty, has at most 15 characters, all of them letters, digits or one of - _ ` [ ] \\ ^ { | }, and does not begin with a digit or -; what a local user asks for is first cut at the configured length, at a ~ and at the first other character not allowed, and is refused while that nick is reserved; '
      'a nick from the network (where ~ is allowed too) is refused if it is not valid as it stands. A valid nick that is not reserved is never refused for its form.',
      ['inputs'], 'all byte strings as nick, all lengths, all configured nick lengths',
      'the tests try a dozen nicks',
      ['ircd/m_nick.c', 'ircd/table_gen.c'],
      [('do_nick_name, m_nick, ms_nick', 'ircd/m_nick.c'), ('IRCD_CharAttrTab', 'ircd/table_gen.c')]),
 prop('C30', 'No two users have the same nick; who came first keeps it',
      'A nick is given to somebody only when nobody else has it (any more). A local user who asks for a nick that a user or server has is refused; an unregistered local connection that holds it is dropped instead. '
      'When the network brings a user, or a change of nick, for a nick somebody else has, the one with the later timestamp loses it if they are different users (address or username differ), and the one with the earlier timestamp if they are the same; with equal timestamps both lose. '
      'The loser is removed here as killed and a KILL goes to the whole network (only back to where he came from, for a user not yet known here), the winner stays or gets the nick, and nobody else is removed.',
      ['inputs', 'histories', 'schedules'], 'all timestamps, addresses, usernames and states of holder and newcomer; introductions and changes',
      'collisions need two servers and a race; the tests run one server',
      ['ircd/m_nick.c', 'ircd/s_user.c'],
      [('m_nick, ms_nick', 'ircd/m_nick.c')],
      [('Client.cli_lastnick', 'since when the nick is held', 'include/client.h')]),
 prop('C31', 'Everyone entitled gets a message once, with its source; nobody else does',
      'What is sent to a channel reaches every connection with an entitled member behind it exactly once: local members get it with the source\'s full name, and each server link behind which there is one gets a single copy with the source\'s numeric; the link it came from (or any direction left out) gets none, nor do kicked members, deaf users where those are to be left out, members without the op or voice it is for, nor servers behind which no such member is. '
      'NICK, QUIT and the like reach each local user who shares a channel with the source on which he is neither kicked nor hidden exactly once (and the source himself), with the capabilities asked for. What is sent to all servers goes to every direct link once except the one left out; DESYNCH, WALLOPS and WALLUSERS also go once to each local user who asked for them. What is sent to a mask reaches each connection with a matching user once. '
      'Whatever is sent to a client ends up on his connection\'s send queue once, complete, in the form for that kind of connection, unless the connection is dead or over its limit, in which case it is closed.',
      ['inputs', 'histories'], 'all membership lists of any length, all channels, flags, capabilities, link directions, and any number of messages before (the marker counter wraps)',
      'the tests use a handful of users on one server; whether a connection gets zero, one or two copies depends on list order, directions and a global marker',
      ['ircd/send.c'],
      [('sendcmdto_channel_butone, sendcmdto_channel_servers_butone, sendcmdto_channel_butserv_butone, sendcmdto_capflag_channel_butserv_butone', 'ircd/send.c'), ('sendcmdto_common_channels_butone, sendcmdto_capflag_common_channels_butone', 'ircd/send.c'), ('sendcmdto_serv_butone, sendcmdto_flag_serv_butone, sendwallto_group_butone, sendcmdto_match_butone, sendcmdto_one, sendcmdto_prio_one', 'ircd/send.c'), ('bump_sentalong, send_buffer, send_raw_buffer, make_wire_msgbuf', 'ircd/send.c')],
      [('sentalong_marker, Connection.con_sentalong', 'who has had the current message', 'ircd/send.c, include/client.h')]),
 prop('C26', 'A banned user is kept out, and removed when the ban is set',
      'A user or connection being registered is refused exactly when a K-line (Kill block: first whose user, real name and host or address masks fit) or an active, unexpired G-line (network-wide or of this server) covers his user name and real host, his address, or his real name; otherwise he comes under the first Client block that fits him, within its limit per address. '
      'Setting, activating or changing a G-line removes every local user it covers and nobody else, and re-reading the configuration removes every local user a ban now covers and nobody else. '
      'Of changes to a network-wide G-line the one with the latest time stamp stands everywhere: an older one changes nothing and is answered with what is known; activation and deactivation, here or everywhere, the expiry and life time take effect exactly as requested, are recorded, passed on to the other servers, and enforced; one that has run out is in force nowhere. A server that joins is told of every network-wide G-line that has not run out, as it stands here; a request for one server only is carried out there and handed on unchanged on the way.',
      ['inputs', 'histories'], 'all lists of bans and Client blocks of any length, all users, all changes and times',
      'tests set one or two bans; whether every user is covered depends on the whole ban list, flags, expiry and the order of changes',
      ['ircd/gline.c', 'ircd/m_gline.c', 'ircd/s_conf.c'],
      [('gline_lookup, do_gline, gline_add, make_gline, gline_modify, gline_propagate, gline_find, gline_burst, gline_resend, gline_destroy, gline_free, canon_userhost', 'ircd/gline.c'), ('ms_gline', 'ircd/m_gline.c'), ('find_kill, attach_iline, rehash', 'ircd/s_conf.c')],
      [('GlobalGlineList, Gline.gl_flags, gl_state, gl_expire, gl_lastmod, gl_lifetime', 'the G-lines', 'ircd/gline.c, include/gline.h'), ('denyConfList, GlobalConfList', 'K-lines and Client blocks', 'ircd/s_conf.c')]),
 prop('C27', 'A connection becomes a user only after all that is asked of it',
      'A connection becomes a user exactly when nothing is outstanding any more (the ident and DNS answers, CAP END after CAP, USER, NICK, the PONG with the cookie it was sent, the authorisation service), no ban covers it, its user name is acceptable, and it comes under a Client block whose limits, password and certificate fingerprint it satisfies; otherwise it waits or is disconnected. '
      'Bans are looked at once name, address and host are settled, and against the name he will have (with ~ in front when ident has not confirmed it) and his real host; what they were checked against does not change afterwards. A host name from the DNS counts only if it leads back to the address. Each connection has a registration of its own, finished once.',
      ['inputs', 'histories'], 'all orders of the events of a registration, all states of the request, all Client blocks',
      'tests register in one or two orders; the order of events and answers comes from the network and the client',
      ['ircd/s_auth.c'],
      [('start_auth, start_dns_ident, start_dns_query, start_auth_query, check_auth_finished, preregister_user, auth_set_user, auth_set_nick, auth_set_pong, auth_cap_start, auth_cap_done, auth_dns_callback, auth_verify_hostname, auth_timeout_callback', 'ircd/s_auth.c')],
      [('AuthRequest.flags', 'what is outstanding', 'ircd/s_auth.c')]),
]
