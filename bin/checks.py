"""What each check builds and explores."""

SCHED = ['pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock',
         'pthread_mutex_trylock', 'pthread_mutex_unlock',
         'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_wait',
         'pthread_cond_timedwait', 'pthread_cond_signal',
         'pthread_cond_broadcast', 'pthread_create', 'pthread_join',
         'pthread_detach', 'pthread_self', 'pthread_cancel',
         'pthread_setcancelstate', 'pthread_testcancel', 'pthread_sigmask',
         '__pthread_register_cancel', '__pthread_unregister_cancel',
         '__pthread_unwind_next', '__sigsetjmp', 'sleep', 'usleep', 'nanosleep', 'time',
         'gettimeofday', 'clock_gettime']
LOGS = ['vsyslog', 'syslog', 'openlog', 'closelog']
BASE = SCHED + LOGS
ENG = ['mcsched.c', 'nenv.c']

CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


check('C01', level='model_checking',
      rule='one execution = one sequence of frames on 1, 2 or 4 channels; '
           'distinct = distinct sequence of deliveries',
      bounds='all sequences of up to 5 (thorough 6) frames of 19 kinds on one '
             'channel, of 8 kinds on two, of 5 kinds on four channels',
      harnesses=[dict(src='c01.c', extra=ENG, wrap=BASE, parts=[
          dict(part='one', shards=8),
          dict(part='two', shards=8),
          dict(part='four', shards=8),
          dict(part='seqs'), dict(part='orphan0', shards=2),
          dict(part='sizes', shards=2), dict(part='forms'),
      ])])

DBX = ['dbx.c']
check('C04', level='model_checking',
      rule='one execution = one schedule, or one history of operations; '
           'distinct = distinct order of deliveries and refusals',
      bounds='schedules of 2 receivers x 2 products (and 3 x 1) and the '
             'processor with up to 2 (thorough 3) preemptions at locks, '
             'signals, data base calls and memory accesses; histories of 5 '
             '(thorough 6) operations; 1 (thorough 2) data base failures',
      harnesses=[
          dict(src='c04.c', extra=ENG + DBX, wrap=BASE + ['db_create'], parts=[
              dict(part='sched', bound=2, bound_thorough=3),
              dict(part='three', bound=1, bound_thorough=2),
              dict(part='timed', bound=3, bound_thorough=4),
              dict(part='spurious', bound=3, bound_thorough=4),
              dict(part='limit', bound=2, bound_thorough=3),
              dict(part='hist', shards=6), dict(part='file', shards=6),
              dict(part='faults', bound=1, bound_thorough=2),
          ]),
          dict(name='mem', mode='mem', src='c04.c', extra=ENG + DBX,
               wrap=BASE + ['db_create'],
               parts=[dict(part='mem', bound=2, bound_thorough=3)]),
      ])

check('C05', level='model_checking',
      rule='one execution = one schedule, or one history of operations on '
           'three queues; distinct = distinct order of deliveries/refusals',
      bounds='schedules of 1-2 senders and a reader with up to 2-3 (thorough '
             '3-4) preemptions at locks, signals, data base calls and memory '
             'accesses; histories of 5 (thorough 6) operations; 1 (thorough '
             '2) data base failures',
      harnesses=[
          dict(src='c05.c', extra=ENG + DBX, wrap=BASE + ['db_create'], parts=[
              dict(part='sched', bound=3, bound_thorough=4),
              dict(part='two', bound=2, bound_thorough=3),
              dict(part='timed', bound=3, bound_thorough=4),
              dict(part='spurious', bound=3, bound_thorough=4),
              dict(part='limit', bound=2, bound_thorough=3),
              dict(part='hist', shards=8), dict(part='file', shards=8),
              dict(part='faults', bound=1, bound_thorough=2, shards=4),
              dict(part='daemon', shards=2),
          ]),
          dict(name='mem', mode='mem', src='c05.c', extra=ENG + DBX,
               wrap=BASE + ['db_create'],
               parts=[dict(part='mem', bound=3, bound_thorough=4)]),
      ])

check('C02', level='model_checking',
      rule='one execution = one damaged frame between good ones, received '
           'three times with different previous contents of the buffer; '
           'distinct = distinct deliveries',
      bounds="33 (thorough: all) values of each of the first 128 bytes of 10 kinds of "
             'frames; every length; products of 21 x 17 x 12 x 3 x 5 field '
             'values; every cut and single byte damage of compressed data',
      harnesses=[dict(src='c02.c', extra=ENG, wrap=BASE, parts=[
          dict(part='bytes', shards=8), dict(part='trunc', shards=2),
          dict(part='fields', shards=8), dict(part='frags', shards=4),
          dict(part='zip', shards=4), dict(part='pairs', shards=4),
      ])])
check('C03', level='model_checking',
      rule='one execution = one product header, received three times with '
           'different previous contents of the buffer; distinct = distinct '
           'names',
      bounds='all combinations of the header forms; every single byte change, '
             'insertion and deletion; every pair of changes over 8 (thorough '
             '13) bytes; every length',
      harnesses=[dict(src='c02.c', extra=ENG, wrap=BASE, parts=[
          dict(part='forms', shards=4), dict(part='edit1', shards=4),
          dict(part='edit2', shards=2), dict(part='cut', shards=2),
          dict(part='seq'),
      ])])

IOX = ['iox.c']
IOXW = ['open', 'close', 'read', 'write', 'unlink', 'mkdir', 'rename', 'poll',
        'fcntl']
QUIT = ['get_quit_flag', 'set_quit_flag']
PROC = dict(src='proc.c', extra=ENG + DBX + IOX,
            wrap=BASE + ['db_create', 'getloadavg', 'recvfrom_channel_timed',
                  'get_npcast_channel_enable'] + IOXW + QUIT)
check('C06', level='model_checking',
      rule='one execution = one history of products, retransmissions, failures '
           'and truncations; distinct = distinct decisions and records',
      bounds='all histories of 4 (thorough 5) operations in 4 configurations',
      harnesses=[dict(PROC, parts=[dict(part='rtx', shards=4)])])
check('C07', level='model_checking',
      rule='one execution = three products received, processed, announced; '
           'distinct = distinct results',
      bounds='8 forms of products x 3 kinds of spool x 2 formats x 9 patterns '
             'x 4 sizes; up to 1 (thorough 2) failing file or data base '
             'operation; consumers scheduled with up to 2 (thorough 3) '
             'preemptions',
      harnesses=[dict(PROC, parts=[
          dict(part='forms', shards=8),
          dict(part='faults', bound=1, bound_thorough=2, shards=2),
          dict(part='order', bound=2, bound_thorough=3, shards=2)])])
check('C08', level='model_checking',
      rule='one execution = one history of insertions, saves, reopenings and '
           'failures; distinct = distinct sets of files and positions',
      bounds='all histories of 6 (thorough 8) operations on rings of 1 to 4 '
             'slots; the daemon with its ring of 1024 slots restarted at 6 '
             'points',
      harnesses=[dict(PROC, parts=[
          dict(part='ring', shards=20), dict(part='dup'),
          dict(part='ringd', shards=6)])])
check('C09', level='model_checking',
      rule='one execution = one history of insertions and failures, or one '
           'schedule of readers and a writer; distinct = distinct contents',
      bounds='all histories of 5 (thorough 6) operations of 9 kinds on 1 to 3 '
             'data bases; schedules of 2-3 readers and a writer on 1-2 slots '
             'with up to 2 (thorough 3) preemptions; 1 (thorough 2) data base '
             'failures',
      harnesses=[dict(src='c09.c', extra=ENG + DBX, wrap=BASE + ['db_create'],
                      parts=[
          dict(part='hist', shards=9),
          dict(part='faults', bound=1, bound_thorough=2),
          dict(part='slots', bound=1, bound_thorough=2, shards=2),
          dict(part='missing', bound=2, bound_thorough=3, shards=2),
          dict(part='spurious', bound=2, bound_thorough=3, shards=2),
          dict(part='displace', bound=2, bound_thorough=3, shards=4)])])

NET = dict(src='net.c', extra=ENG + IOX,
           wrap=BASE + IOXW + QUIT + ['tcp_client_open_conn', 'malloc',
                                         'calloc', 'realloc'])
check('C11', level='model_checking',
      rule='one execution = one stream of packets read by the slave; '
           'distinct = distinct products delivered',
      bounds='12 sizes x 2 spools x 5 names x 4 codes; pauses and splits at '
             'every position; loss of the connection at every position '
             '(thorough: twice); every interleaving of the packets of two '
             '(thorough three) masters; six families of bad packets',
      harnesses=[dict(NET, parts=[
          dict(part='xfer', shards=4), dict(part='split', shards=8, bound=2),
          dict(part='cut', shards=4), dict(part='multi', shards=2),
          dict(part='hostile', shards=6), dict(part='dups')])])
check('C12', level='model_checking',
      rule='one execution = one stream of announcements; distinct = distinct '
           'contents of the queues',
      bounds='every value of each code; splits, pauses and loss of the '
             'connection at every position; four families of bad packets',
      harnesses=[dict(NET, parts=[
          dict(part='pack', shards=8), dict(part='link2', shards=8, bound=2),
          dict(part='hostile2', shards=4)])])
check('C14', level='model_checking',
      rule='one execution = what is written to the input fifo; distinct = '
           'distinct contents of the queues',
      bounds='splits and pauses at every position; four families of bad '
             'records; 1 (thorough 2) failing allocations',
      harnesses=[dict(NET, parts=[
          dict(part='fifo', shards=7, bound=2),
          dict(part='fifobad', shards=4),
          dict(part='fifomem', bound=1, bound_thorough=2)])])
check('C19', level='model_checking',
      rule='one execution = one history of failed connections; distinct = '
           'distinct outcomes',
      bounds='all histories of up to 3 (thorough 4) failures of 11 kinds, in '
             'both protocols; 1 (thorough 2) failing allocations',
      harnesses=[dict(NET, parts=[
          dict(part='reconn', shards=2),
          dict(part='netmem', bound=1, bound_thorough=2)])])
INS = dict(name='ins', dir='tools/nbspinsert', srcs=['*.c'], copies=3)
check('C20', level='model_checking',
      rule='one execution = one to three insertions under one schedule and '
           'with up to one failure; distinct = distinct order of records and '
           'exit states',
      bounds='record lengths around 1024, 4096 and 65536 bytes; 14 values of '
             'each number; 7 sizes x 4 forms of input x 4 old files; schedules '
             'of 2 (thorough 3) instances with up to 3 preemptions, the fifo '
             'empty or full; 1 (thorough 2) failing system calls',
      harnesses=[dict(src='ins.c', extra=ENG + IOX + ['tool.c'], progs=[INS],
                      wrap=BASE + IOXW + QUIT + ['flock'], parts=[
          dict(part='form', shards=2),
          dict(part='many', bound=2, bound_thorough=3, shards=4),
          dict(part='fault', bound=1, bound_thorough=2),
          dict(part='daemon', bound=1, bound_thorough=2, shards=4)])])
MCST = dict(name='mcst', dir='tools/nbspmcast', srcs=['*.c', 'sbnpack/*.c'],
            skip=['recv.c', 'nbspmcast-nostdin.c'],
            inc=['tools/nbspmcast/sbnpack', 'tools/nbspmcast/mcast'])
check('C22', level='model_checking',
      rule='one execution = one run of the program on a list of files; '
           'distinct = distinct frames sent',
      bounds='every size within 45 bytes of 0 to 4 full frames; all lists of '
             'up to 3 (thorough 4) files of 7 kinds, in 4 forms; all '
             'combinations of the options; 1 (thorough 2) failing calls',
      harnesses=[dict(src='mcst.c', extra=ENG + IOX + ['tool.c'], progs=[MCST],
                      wrap=BASE + IOXW + ['mcast_snd', 'sendto', 'malloc'],
                      parts=[
          dict(part='size', shards=2),
          dict(part='list', shards=4),
          dict(part='fault', bound=1, bound_thorough=2),
          dict(part='opt', shards=2), dict(part='big')])])
SERV = dict(src='serv.c', extra=ENG + IOX,
            wrap=BASE + IOXW + QUIT + ['tcp_server_open_conn',
            'tcp_server_accept_conn', 'get_peer_ip', 'get_peer_name',
            'client_allow_nconn', 'recvfrom', 'pfilter_open_wr',
            'pfilter_close', 'pfilter_flush', 'pfilter_read'])
check('C24', level='model_checking',
      rule='one execution = one behaviour of a client next to another one; '
           'distinct = distinct streams received',
      bounds='3 protocols x 5 behaviours of another client x 9 positions; '
             'reconnection at 16 moments x 6 positions x 3 protocols; up to 1 '
             '(thorough 2) preemptions around a reconnection; 12 pairs of '
             'limits; streams of 5 products',
      harnesses=[dict(SERV, parts=[
          dict(part='deliver', shards=3), dict(part='reconn', shards=3),
          dict(part='reconn1', shards=3), dict(part='limits', shards=3),
          dict(part='emwin', shards=3)])])
check('C17', level='model_checking',
      rule='one execution = one history of clients; distinct = distinct '
           'connections and streams',
      bounds='all histories of 4 events of 12 kinds with the next event at '
             'once or later; 7 configurations x histories of 3 events; '
             'stopping at 16 moments of those; 4 ways of ending at 16 moments '
             'with 1-2 positions in the memory spool',
      harnesses=[dict(SERV, parts=[
          dict(part='table', shards=8), dict(part='tablecfg', shards=8),
          dict(part='shutdown', shards=8), dict(part='slots', shards=2),
          dict(part='create', shards=3),
          dict(part='stop1', shards=3)])])
check('C18', level='model_checking',
      rule='one execution = one configuration and history of the server; '
           'distinct = distinct streams received, or options',
      bounds='16 scripts x 6 events x 16 scripts x 9 pairs of protocols; all '
             'pairs (thorough: triples) of option entries of 8 names and 8 lists '
             'of values',
      harnesses=[dict(SERV, parts=[
          dict(part='netf', shards=8), dict(part='opts', shards=2)])])

check('C16', level='model_checking',
      rule='one execution = one history of the filters; distinct = distinct '
           'contents written to them',
      bounds='all histories of 4 (thorough 5) events of 15 kinds in 4 '
             'configurations, with files and memory spool; all pairs of '
             'contents of the directory of filters before and after a reload',
      harnesses=[dict(src='filt.c', extra=ENG + IOX,
                      wrap=BASE + IOXW + QUIT + ['popen', 'pclose'], parts=[
          dict(part='hist', shards=15), dict(part='mspool', shards=5),
          dict(part='dir', shards=8)])])

check('C23', level='model_checking',
      rule='one execution = one list of masters; distinct = distinct tables',
      bounds='all strings of up to 6 (thorough 7) characters of an alphabet '
             'of 8 to 10; products of 13 types x 4 hosts x 4 ports x up to 7 '
             'options; lists of up to 3 of 14 entries x separators x feed '
             'modes; every allocation failing',
      harnesses=[dict(src='slavt.c', extra=ENG,
                      wrap=BASE + ['malloc', 'calloc'], parts=[
          dict(part='chars', shards=6), dict(part='fields', shards=13),
          dict(part='pairs', shards=15),
          dict(part='nomem', bound=1, bound_thorough=2)])])

LIFE = dict(src='life.c', extra=ENG + DBX + IOX,
            wrap=BASE + ['db_create'] + IOXW + ['configure', 'atexit', 'daemon',
            'Tcl_FindExecutable', 'sigwait', 'signal', 'mcast_rcv', 'select',
            'recvfrom', 'popen', 'pclose', 'mkfifo', 'fopen', 'exit', 'malloc',
            'calloc', 'tcp_client_open_conn', 'tcp_server_open_conn',
            'rept_pctl_quota', 'e_nbspq_report_quota', 'log_qstate',
            'nbspstats_update', 'set_server_state_flag',
            'set_filterserver_state_flag', 'verify_load_ave_condition',
            'set_rtxdb_truncate_flag', 'nbsp_mspoolbdb_dbstats',
            'exec_scheduler', 'set_reload_filters_flag',
            'set_reload_server_filters_flag', 'sbnframeproc',
            'get_quit_flag'])
check('C26', level='model_checking',
      rule='one execution = one life of the program',
      bounds='7 configurations; one signal at each scheduling point of a life '
             '(0 preemptions; thorough 1 more for TERM); 1 failing operation or '
             'allocation; 4 (thorough 5) steps of time x 9 events x 7 periods; '
             '12 x 12 addresses and ports; 3 (thorough 4) receptions',
      harnesses=[dict(LIFE, parts=[
          dict(part='term', shards=8, bound=0, bound_thorough=1),
          dict(part='faults', shards=7, bound=0, bound_thorough=1),
          dict(part='nomem', shards=7), dict(part='hup', shards=8),
          dict(part='per', shards=9), dict(part='second', shards=2),
          dict(part='cfg', shards=4), dict(part='rcv', shards=8)])])

check('C10', level='model_checking',
      rule='one execution = one configuration or command line; distinct = '
           'distinct values set',
      bounds='129 variables x 21 values x 4 ways of giving them; all ordered '
             'pairs of variables; all together; all sequences of 3 (thorough 4) '
             'of 12 options',
      harnesses=[dict(src='conf.c', extra=ENG,
                      wrap=BASE + ['errx', 'drop_privs', 'atexit',
                                   'init_globals'], parts=[
          dict(part='one', shards=8), dict(part='pairs', shards=8),
          dict(part='files'), dict(part='print'), dict(part='args', shards=4)])])

check('C25', level='model_checking',
      rule='one execution = one sequence of frames, of blocks, or of products '
           'and retransmissions, with the reports of the statistics; distinct = '
           'distinct counts',
      bounds='all sequences of up to 5 (thorough 6) operations of 23 kinds on one '
             'channel, of 8 kinds on two channels, of 10 kinds with two masters; '
             'all histories of 4 (thorough 5) products in 4 configurations',
      harnesses=[dict(name='fr', src='c01.c', extra=ENG, wrap=BASE, parts=[
                     dict(part='st-one', shards=8), dict(part='st-two', shards=8),
                     dict(part='st-slave', shards=4)]),
                 dict(name='mem', mode='mem', src='c01.c', extra=ENG, wrap=BASE,
                      parts=[dict(part='st-par', shards=6, bound=2,
                                  bound_thorough=3)]),
                 dict(PROC, name='proc', parts=[dict(part='st-rtx', shards=4)])])

check('C13', level='model_checking',
      rule='one execution = one list of patterns, or one product with one setting',
      bounds='all lists of up to 3 of 16 expressions, 8 names; each of the 8 '
             'patterns with 5 lists next to each other one; 1 failing allocation',
      harnesses=[dict(name='patt', src='patt.c', extra=ENG, wrap=BASE + ['malloc', 'calloc'],
                      parts=[dict(part='match', shards=2), dict(part='eight'),
                             dict(part='nomem', bound=1, bound_thorough=2)]),
                 dict(PROC, name='proc', parts=[dict(part='pt-use', shards=3)]),
                 dict(SERV, name='serv', parts=[dict(part='patt', shards=4)])])

check('C28', level='model_checking',
      rule='one execution = one history of loads, products and retransmissions; '
           'distinct = distinct states of the load and of the index',
      bounds='all histories of 4 (thorough 5) of 8 operations in 16 '
             'configurations; all histories of 4 (thorough 6) of 6 loads with all '
             'each reader',
      harnesses=[dict(PROC, parts=[dict(part='ld-rtx', shards=8),
                                   dict(part='ld-read', shards=8, bound=0)])])


FL = 'filters/filterlib/c'
FLC = ['err.c', 'util.c', 'unz.c', 'io.c', 'misc.c']


def flp(name, srcs, **kw):
    return dict(name=name, dir=FL, srcs=srcs + FLC, inc=[FL, 'src'], **kw)


check('C21', level='model_checking',
      rule='one execution = one file compressed or decompressed; distinct = '
           'distinct outputs',
      bounds='up to 3 (thorough 4) frames of 8 sizes, 3 headers, 5 last frames '
             'not compressed, options; every truncation, every byte removed, '
             'inserted or changed (8 values) of a file; 8 sizes x 14 levels; 1 '
             '(thorough 2) failing operations',
      harnesses=[dict(src='unzp.c', extra=ENG + IOX + ['tool.c'], progs=[
                      flp('nbspz', ['nbspz.c']),
                      flp('nbspunz', ['nbspunz.c', 'mfile.c'])],
                      wrap=BASE + IOXW + ['malloc', 'realloc'], parts=[
          dict(part='unz', shards=8), dict(part='dmg', shards=4),
          dict(part='z', shards=2),
          dict(part='fault', bound=1, bound_thorough=2)])])

check('C15', level='model_checking',
      rule='one execution = one command, one history of commands, or two programs '
           'together; distinct = distinct outputs',
      bounds='16 sizes around the header and the pages x 5 forms of the ccb x all '
             'options; sizes around 4 and 8 MB; all histories of 3 (thorough 4) of '
             '20 commands; bad arguments; 1 (thorough 2) failing operations; two '
             'programs with up to 2 (thorough 3) preemptions',
      harnesses=[dict(src='catp.c', extra=ENG + IOX + ['tool.c'], progs=[
                      flp('nbspfile', ['nbspfile.c']),
                      flp('nbspfile2', ['nbspfile.c']),
                      flp('nbsppipe', ['nbsppipe.c']),
                      flp('nbspcat', ['nbspcat.c', '../../../src/strsplit.c'])],
                      wrap=BASE + IOXW + ['malloc', 'flock', 'fwrite', 'fclose',
                                          'ftruncate', 'chdir'], parts=[
          dict(part='one', shards=8), dict(part='opt', shards=4),
          dict(part='big', shards=3), dict(part='args'),
          dict(part='cat', shards=8),
          dict(part='fault', bound=1, bound_thorough=2, shards=3),
          dict(part='par', bound=2, bound_thorough=3, shards=8)])])

DCG = ['dcgini/dcgini_' + x + '.c' for x in
       ('asc', 'csv', 'dbf', 'info', 'misc', 'name', 'pdb', 'shp', 'transform', 'util')]
DCN = ['dcnids/dcnids_%s.c' % x for x in (
    'extract', 'header', 'misc', 'name', 'transform', 'shp', 'csv', 'dbf', 'info',
    'bunz', 'decode_radials_af1f', 'decode_digital_radials_16')]

check('C27', level='model_checking',
      rule='one execution = one product decoded twice; distinct = distinct '
           'outcomes',
      bounds='all lists of up to 3 sections, all headers and options; images of '
             'several sizes in 5 projections; all lists '
             'of up to 2 (thorough 3) radials of 6 forms, 8 products; every '
             'truncation, every byte removed, inserted or changed (10 values); '
             '15 sizes of each section; 1 (thorough 2) failing operations',
      harnesses=[dict(src='dec.c', extra=ENG + IOX + ['tool.c'], progs=[
                      flp('nbspgrib', ['nbspgrib.c']),
                      flp('nbspgrib2', ['nbspgrib2.c']),
                      flp('nbsprad2info', ['nbsprad2info.c']),
                      flp('nbspradinfo', ['dcnids/nbspradinfo.c'] + DCN),
                      flp('nbspradgis', ['dcnids/nbspradgis.c'] + DCN)],
                      ldflags=['-lbz2'],
                      wrap=BASE + IOXW + ['malloc', 'calloc', 'realloc', 'fopen',
                                          'fclose'], parts=[
          dict(part='grib', shards=16), dict(part='gribdmg', shards=2),
          dict(part='radinfo', shards=2), dict(part='infodmg', shards=2),
          dict(part='rad2'), dict(part='radgis', shards=8),
          dict(part='gisopt', shards=2), dict(part='gisdmg', shards=2),
          dict(part='gisname'), dict(part='gisfull'),
          dict(part='outfull'),
          dict(part='gisfault', bound=1, bound_thorough=2)]),
                 dict(src='sat.c', name='sat', extra=ENG + IOX + ['tool.c'], progs=[
                      flp('nbspsat', ['dcgini/nbspsat.c'] + DCG),
                      flp('nbspsatinfo', ['dcgini/nbspsatinfo.c'] + DCG),
                      flp('nbspsatgis', ['dcgini/nbspsatgis.c'] + DCG)],
                      ldflags=['-lpng'],
                      wrap=BASE + IOXW + ['malloc', 'calloc', 'realloc', 'fopen',
                                          'fclose'], parts=[
          dict(part='satinfo', shards=2), dict(part='sinfodmg', shards=2),
          dict(part='sat', shards=4), dict(part='satdmg', shards=3),
          dict(part='satgis', shards=6), dict(part='satasc', shards=5),
          dict(part='satopt', shards=8), dict(part='sgisdmg', shards=3),
          dict(part='satname'), dict(part='satfull'),
          dict(part='outfull'),
          dict(part='satfault', bound=1, bound_thorough=2)])])

check('C29', level='model_checking',
      rule='one execution = one specification at all the minutes, one run of a '
           'script, or one history of calls; distinct = distinct outcomes',
      bounds='all specifications of up to 2 (thorough 3) entries over the limits '
             'of each unit, every n, 3 time zones, the limits of each day for 3 '
             'months; all schedules of up to 2 (thorough 3) lines of 11 kinds in '
             '8 sets of files; 3 days of calls; all days and hours in 12 months',
      harnesses=[dict(src='schd.c', mode='plain', lib=False, libs=['-ltcl8.6', '-lm'],
                      parts=[
          dict(part='mspec', shards=3), dict(part='hspec', shards=3),
          dict(part='script', shards=4), dict(part='periodic', shards=9),
          dict(part='guess', shards=4)])])

check('C30', level='model_checking',
      rule='one execution = one run of a program on a tree of files; distinct = '
           'distinct sets of files left',
      bounds='all inventories of up to 3 entries of 7 kinds, alone or two '
             'together; configurations of 1 or 2 (thorough 3) lines of 14 '
             'expressions, 5 times and 5 directories in 3 files, with wrong lines',
      harnesses=[dict(src='clean.c', extra=ENG + IOX + ['tool.c'], progs=[
                      dict(name='nbspinvrm', dir='utils/nbspinvrm',
                           srcs=['nbspinvrm.c'])],
                      wrap=BASE + IOXW, parts=[
          dict(part='inv', shards=2), dict(part='cleanup', shards=14)])])

check('C31', level='model_checking',
      rule='one execution = the values of one product (after another one), one '
           'file saved, or one call of a function; distinct = distinct values',
      bounds='all names of 3 stations, 6 headers, 8 forms and 10 endings; each '
             'byte at 6 places of texts of 13 sizes; radar products of 8 headers '
             'x 5 identifiers x 6 files; GRIB products of 2 editions, 6 stations, '
             '9 headers, 6 centers, 4 subcenters, 5 models, 16 units of time, 5 '
             'values; all lists of up to 3 (thorough 4) patterns and options; all '
             'sets of configuration files',
      harnesses=[dict(src='flib.c', extra=ENG + IOX + ['tool.c'], progs=[
                      flp('nbspgrib', ['nbspgrib.c']),
                      flp('nbspgrib2', ['nbspgrib2.c']),
                      flp('nbsprad2info', ['nbsprad2info.c']),
                      flp('nbspradinfo', ['dcnids/nbspradinfo.c'] + DCN),
                      flp('nbspunz', ['nbspunz.c', 'mfile.c']),
                      flp('nbspfile', ['nbspfile.c']),
                      flp('nbsppipe', ['nbsppipe.c'])],
                      ldflags=['-lbz2'], wrap=BASE + IOXW, parts=[
          dict(part='names', shards=3), dict(part='body', shards=3),
          dict(part='rad', shards=8), dict(part='rad2'),
          dict(part='grib', shards=2), dict(part='gribtime', shards=2),
          dict(part='save', shards=6), dict(part='wild'),
          dict(part='conf', shards=3), dict(part='strs', shards=4)])])
