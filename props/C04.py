PROP = dict(
    units=[
        dict(tu='contracts/c04_ip.c', fns=['iptobase64', 'base64toip', 'lemma_ip'], cfg=dict(noeffect=['debug', 'fprintf'], const_globals=['convert2n', 'convert2y'], fuel=8), timeout=100),
        dict(tu='contracts/c04_text.c', fns=['ircd_ntoa_r'], cfg=dict(noeffect=['debug', 'fprintf'], const_globals=['IpQuadTab']), timeout=100),
    ],
)
PROP['witness'] = dict(src='witness/c04.c', world=True)
PROP['assumptions'] = ['ircd_ntoa_r(): the text of an IPv4 address is not specified (the replay driver compares it)',
                       'base64toip() is given a text that iptobase64() wrote (what a server that breaks the protocol sends as an address is out of scope)',
                       'the address read into does not overlap the one written from', 'the buffer given to iptobase64() has at least 25 bytes (both callers: asserted)']
