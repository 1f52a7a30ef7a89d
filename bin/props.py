"""The properties, and what properties.jsonl and MANIFEST.json say of them."""
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, observe=(),
      technique='', note='', na=None):
    PROPS.append(dict(id=pid, title=title, statement=' '.join(statement.split()),
                      over=over, text=' '.join(text.split()),
                      why=' '.join(why.split()), files=files, mech=mech,
                      observe=list(observe), technique=technique,
                      note=' '.join(note.split()), na=na))


DFS = 'model checking: stateless exhaustive exploration of the real code'

P('C01', 'Broadcast products are reassembled exactly',
  """A product whose frames arrive in order on a channel is handed to the
  processor exactly once, in order of completion, marked complete, with
  exactly the bytes of its frames and a name made from its header and sequence
  number. A product with a missing, repeated or prematurely ended frame is
  handed over only as an incomplete record and never as a complete one, and an
  aborted product is not handed over. Damaged frames, frames of other products
  and frames of other channels do not alter a product.""",
  ['histories', 'inputs'],
  """every sequence, up to a depth, of good, missing, repeated, foreign, late,
  aborted, damaged and retransmitted frames on one to four interleaved
  channels, at ordinary and extreme sequence numbers, fragment sizes and
  header forms""",
  """No existing test drives the receiver; ordinary traffic shows one good
  order, while the guarantee is about every interleaving of losses, damage and
  channels.""",
  ['src/framep.c', 'src/sbn.c', 'src/pctl.c', 'src/pctldb.c', 'src/mfile.c'],
  [('one active element per channel', 'src/pctl.c open_pctl_activepce'),
   ('fragment counter check', 'src/pctl.c update_activepce_framecounter'),
   ('frame checks', 'src/sbn.c unpack_sbn_headers')],
  ['products read from the processor queue'],
  DFS + ' (frame receiver) against a reference model of the protocol',
  """All frame sequences up to the stated depth are fed to the real receiver
  under ASan and compared with a reference reassembler. Trusted: the
  reference model and the frame builder. Longer histories and the multicast
  socket itself are outside the bound.""")

P('C02', 'Hostile frames do no harm',
  """Whatever the bytes and the length of a received frame (headers, sizes and
  offsets that do not agree with the frame, any transfer type, fragment counts
  out of range, compressed data that is cut, corrupt or expands beyond a
  frame), the receiver neither reads nor writes outside the frame, nor aborts;
  it does not alter the product of another channel, and the next good product
  on any channel is delivered intact. What is done with the frame depends only
  on its bytes, not on what was received before it.""",
  ['inputs', 'histories'],
  """each frame of a family (every header byte changed, every length, products
  of field values, damaged compressed data), placed between good frames of
  two channels""",
  """The bytes come from a satellite link and from the network; tests use
  none of them.""",
  ['src/sbn.c', 'src/framep.c', 'src/pctl.c', 'src/mfile.c', 'src/unz.c'],
  [('size checks', 'src/sbn.c sbn_unpack_frame'),
   ('decompression bounded by the buffer', 'src/sbn.c unz'),
   ('fragment counter', 'src/framep.c')],
  ['memory errors, aborts', 'products read from the processor queue'],
  DFS + ' (frame receiver, hostile frames)',
  """Each frame is received three times, with three different previous
  contents of the reception buffer, by the real receiver under ASan and
  UBSan; the outcomes must be equal. Bound: one or two damaged frames of the
  listed families.""")

P('C03', 'Product names come from the product header, inside the spool',
  """The name of a product is made only from its own header: station, product
  identifier, time, the awips identifier (after a '-') or the first word of
  the second line or the bbb (after a '+'), and the sequence number, in lower
  case. Every part holds only letters and digits, so that the path is always
  <spool directory>/<station>/<name>. A product whose header is not valid is
  never delivered under a name.""",
  ['inputs'],
  """every combination of the header forms; every one byte change, insertion
  and deletion and pairs of changes; every truncation; with and without ccb
  and control header""",
  """A name that leaves the spool, or taken from a previous frame, shows only
  with unusual bytes at specific places.""",
  ['src/sbn.c', 'src/framep.c', 'src/nbsp.c', 'src/pctl.c'],
  [('header parsing', 'src/sbn.c split_wmo_header'),
   ('validation', 'src/sbn.c validate_wmo'),
   ('path', 'src/framep.c')],
  ['names and paths of the products read from the processor queue'],
  DFS + ' (header forms against an independent oracle)',
  """The expected name is known for the well formed headers; for the others
  the oracle checks form, provenance and independence from stale data.""")

P('C04', 'The processor queue loses nothing and keeps order',
  """Every product put in the processor queue by any receiver is taken out by
  the processor exactly once, with its own data and attributes, in the order
  of insertion of each receiver; only above the hard limit is a product
  refused, and then it is reported and nothing of it remains. The processor
  wakes up when there is something and waits no longer than its timeout when
  there is not. This holds for every interleaving, for the queue in memory and
  in a file, across a close and reopening, whatever the clock does, and
  when the data base fails at any operation.""",
  ['schedules', 'histories', 'crash points'],
  """schedules of two or three receivers and the processor up to a preemption
  bound, spurious wake-ups, early timeouts; histories of operations; every
  data base call failing""",
  """Lost wake-ups, lost or crossed data and limits appear only in particular
  interleavings and failures.""",
  ['src/pctldb.c', 'src/pctl.c', 'src/pctlmfdb.c', 'src/mfile.c',
   'src/libqdb/qdb.c'],
  [('lock and condition', 'src/pctldb.c'),
   ('unique time stamped keys', 'src/pctldb.c'),
   ('hard limit', 'src/pctldb.c')],
  ['products taken from the queue', 'status codes'],
  DFS + ' (controlled scheduler, fault injection)',
  """Berkeley DB itself is trusted (its calls are points and may fail). The
  real pctldb code runs with a controlled scheduler; the "mem" part adds points at
  unsynchronised memory accesses.""")

P('C05', 'Each subscriber queue delivers each announcement once, in order',
  """What is put in the queue of a filter, a local server client or the
  network is taken out of that same queue exactly once, complete and in the
  order it was put there, whatever the other queues do; a record is refused
  only above the hard limit, with an error and leaving nothing. A reader
  waits until there is something or its timeout passes, and is woken by the
  next record. This holds for every interleaving of senders and reader, for
  queues in memory and in files, and after any data base failure.""",
  ['schedules', 'histories'],
  """schedules of one or two senders and a reader up to a preemption bound;
  histories of operations on three queues; every data base call failing; the
  daemon's own filter and server queues""",
  """As for the processor queue: only particular schedules, limits and
  failures show a loss, a duplicate or a lost wake-up.""",
  ['src/libqdb/qdb.c', 'src/nbspq.c'],
  [('lock and condition', 'src/libqdb/qdb.c'), ('record framing', 'src/nbspq.c'),
   ('hard limit', 'src/libqdb/qdb.c')],
  ['records taken from each queue', 'status codes'],
  DFS + ' (controlled scheduler, fault injection)',
  'Berkeley DB is trusted; its calls are scheduling and failure points.')

P('C06', 'Retransmissions are used exactly when needed',
  """A product that arrives as a retransmission is processed (saved and
  announced) if the product it repeats was received incomplete, could not be
  saved or was never seen, and is ignored if that product was already saved;
  the retransmission of an ignored or processed product counts as that product
  for later retransmissions. Records are kept for one to two truncation periods
  and only for the configured products; without a data base the configured
  default decides. Incomplete products are recorded, logged as missing once
  and never saved; every complete retransmission is logged.""",
  ['histories'],
  """every history, up to a depth, of good, incomplete and unsaveable products,
  of their retransmissions (good, incomplete, unsaveable, of unseen products)
  and of truncations, in four configurations""",
  """The decision depends on the history of several products and of the
  truncations; a test samples one.""",
  ['src/nbsp.c', 'src/rtxdb.c', 'src/ertxdb.c'],
  [('decision', 'src/nbsp.c process_complete/rtx'),
   ('records in two data bases', 'src/rtxdb.c')],
  ['announcements', 'files in the spool', 'missing and rtx logs'],
  DFS + ' (receiver and processor) against a reference model',
  """The real receiver, queue, processor, rtx data base and spool run together;
  failures are of the writes to the spool. Deeper histories are outside the
  bound.""")

P('C07', 'What is announced is in the spool, complete',
  """Each complete product is saved in the spool (directory of files, memory or
  both) with exactly its bytes, in its configured format (with or without the
  ccb; uncompressed where that is asked for), before it is announced, and then
  announced exactly once to the filters and exactly once to the server, in
  order, if the respective pattern accepts its name. A product that could not
  be decompressed or saved is not announced, and no part of it is left in the
  spool; the products after it are not affected.""",
  ['inputs', 'schedules', 'crash points'],
  """all forms of products x kinds of spool x formats x patterns x sizes; every
  file or data base operation of the processor failing; consumers scheduled at
  every operation of the processor, up to a preemption bound""",
  """The order of saving and announcing is only visible to a consumer that
  runs at the right moment, and the failures are of the operating system.""",
  ['src/nbsp.c', 'src/mfile.c', 'src/libspoolbdb/mspoolbdb.c', 'src/nbspq.c',
   'src/nbspmspoolbdb.c', 'src/packfpu.c'],
  [('save then announce', 'src/nbsp.c nbsp_loop'),
   ('formats', 'src/nbsp.c pce_save_*'), ('patterns', 'src/nbspre.c')],
  ['spool contents when the announcement is received', 'announcements'],
  DFS + ' (controlled scheduler, fault injection on files and data bases)',
  """Consumers read the real queues and look at the spool as soon as they are
  woken. A crash of the whole machine (torn files on disk) is not covered.""")

P('C08', 'The spool ring deletes only what is old',
  """With the spool ring enabled the newest N products stay in the spool and
  older ones are deleted as new ones arrive: no product younger than N
  insertions is deleted, and no more than N remain, also if files vanish or
  cannot be deleted (which is reported, and the ring goes on). The ring is
  saved on exit and continues after a restart with the same or more slots; a
  saved ring that is cut or was made for fewer slots or other names is refused
  without deleting anything.""",
  ['histories', 'crash points'],
  """every history, up to a depth, of insertions, vanished and undeletable
  files, restarts and enlargements on rings of 1 to 4 slots; the daemon with a
  full ring restarted at chosen points; every kind of refused saved ring""",
  """Deletions depend on the position in the ring and on restarts.""",
  ['src/spooldb.c', 'src/nbsp.c'],
  [('ring', 'src/spooldb.c'), ('use by the processor', 'src/nbsp.c')],
  ['files in the spool directory', 'status codes'],
  DFS + ' (ring library and daemon) on real files',
  """One known finding (a path inserted twice). The daemon part has 12
  executions only, with rings of 1024 and 1026 slots.""")

P('C09', 'The memory spool gives back what was put in it',
  """A product put in the memory spool is read back from it, whole and
  unchanged, by any number of readers at once, each with its own slot, until
  newer products have filled all the other data bases of the ring; what is
  read from an open slot does not change when the product is displaced. A
  product that is not there is reported as not found, and only that. Only a
  lack of memory discards anything else, the oldest first, and a product that
  cannot be stored is refused without a trace and without disturbing the
  others. A reader waits while no slot is free, and is woken when one is.""",
  ['histories', 'schedules'],
  """every history, up to a depth, of insertions of sizes from 1 byte to more
  than the maximum and of memory and other failures, with 1 to 3 data bases;
  schedules of two or three readers and a writer on one or two slots up to a
  preemption bound; every data base call failing""",
  """Displacement depends on the order of sizes; slots and wake-ups on the
  interleaving of the client threads.""",
  ['src/libspoolbdb/spoolbdbv.c', 'src/libspoolbdb/spoolslots.c',
   'src/libspoolbdb/spoolbdb.c', 'src/libspoolbdb/mspoolbdb.c',
   'src/nbspmspoolbdb.c'],
  [('ring of data bases', 'src/libspoolbdb/spoolbdbv.c'),
   ('slots', 'src/libspoolbdb/spoolslots.c'),
   ('making room', 'src/nbspmspoolbdb.c')],
  ['data read from the slots', 'status codes'],
  DFS + ' (controlled scheduler, fault injection, reference model)',
  """Berkeley DB is trusted. The cache spool in files shared between processes
  is not covered.""")

P('C11', 'Files sent to another server arrive unchanged',
  """A product sent to another server with its contents (the NBS1 service)
  arrives in that server's processor queue with the same name, codes, sequence
  number and bytes, exactly once, whatever its size, the kind of spool it is
  read from, and how the stream is split or paused within the configured
  timeouts. If the connection is lost inside a product nothing of it is
  delivered as complete, and the products sent after the reconnection are
  intact. Several masters do not disturb each other. Hostile packets are
  refused without harm: nothing is delivered with a name that leaves the spool,
  and the products after the reconnection arrive. If so configured duplicates
  and names that the pattern does not accept are left out, and only those.""",
  ['inputs', 'schedules', 'crash points'],
  """twelve sizes around the block limits x spools x names x codes; splits and
  pauses of the stream at every position; loss of the connection (end, error,
  silence) at every position; every interleaving of the packets of two or
  three masters; six families of bad packets""",
  """No test runs the network code; the reading and the reassembly depend on
  where the stream is cut, on two masters at once and on what a peer sends.""",
  ['src/nbs1s.c', 'src/nbs1r.c', 'src/slavenbs/reader.c',
   'src/slavenbs/framep.c', 'src/slave_net.c', 'src/nreadn.c'],
  [('packets built by the master', 'src/nbs1s.c build_nbs_packet'),
   ('packets read by the slave', 'src/nbs1r.c recv_nbs_packet'),
   ('reassembly', 'src/slavenbs/framep.c')],
  ['products read from the processor queue of the receiving server'],
  DFS + ' (slave threads against virtual masters)',
  """The sockets are virtual (read, write, poll and close of the real code are
  answered by the explorer); the streams are short (3 products). Trusted: the
  packet builder of the harness, itself compared with what the real sender
  writes.""")

P('C12', 'Announcements received from another server are passed on unchanged',
  """An announcement (name, path, codes, sequence number) packed by a server,
  carried by the queues or received from another server (the NBS2 service)
  and unpacked has the same values, for every value of each of them. All that
  are received are announced in order, once, to the filters and to the server
  as their patterns say, however the stream is split, paused within the
  timeouts or reconnected. A damaged or hostile packet does no harm, and does
  not prevent the next ones from being received after reconnecting.""",
  ['inputs', 'crash points'],
  """every value of each code, sequence numbers at every power of two, every
  length of name; splits, pauses and loss of the connection at every
  position; four families of bad packets with right and wrong checksums""",
  """The codes pass through bytes and signed types, and the stream through
  partial reads; the tests use neither.""",
  ['src/packfp.c', 'src/packfpu.c', 'src/nbspq.c', 'src/slavefp/reader.c',
   'src/slavefp/framep.c', 'src/slave_net.c'],
  [('packing', 'src/packfp.c nbsfp_pack_fpath'),
   ('receiving', 'src/packfp.c recv_fp_packet'),
   ('unpacking', 'src/packfpu.c nbsfp_unpack_fpath')],
  ['what a consumer reads from the filter and server queues'],
  DFS + ' (slave threads against virtual masters)',
  """Streams of three announcements. Virtual sockets, as in C11.""")

P('C14', 'Announcements written to the input fifo are all taken',
  """Each record written to the input fifo is announced once, in order and with
  its values, to the filters and the server as their patterns say, however the
  records are split over writes and reads and however long the writers pause
  between them. A bad record (wrong size, missing or extra fields, names too
  long, not ended) does no harm: it is not announced with names that do not
  end, the program goes on, the fifo is opened again, and later records are
  announced.""",
  ['inputs'],
  """three records split and paused at every position; bad sizes, a list of bad
  records, every byte changed to eight values, and every cut, between good
  records""",
  """Any local program may write the fifo; the tests do not use it.""",
  ['src/slavein/reader.c', 'src/slavein/framep.c', 'src/slave_in.c',
   'src/packfp.c'],
  [('records', 'src/slavein/reader.c recv_in_packet'),
   ('reopening', 'src/slave_in.c')],
  ['what a consumer reads from the filter and server queues'],
  DFS + ' (fifo reader thread against a virtual fifo)',
  """The contents of the fifo are virtual, its creation and permissions
  real.""")

P('C19', 'A slave always reconnects to its master',
  """Whatever happens to the connection to a master (refused, name not
  resolved, error or timeout while asking for the service, closed, silent,
  damaged data, cut inside a packet, close failing), the slave closes it once,
  waits the configured time, connects again, asks for the configured service
  and receives the next product. It has at most one connection at a time,
  never decides to stop the program because of this, and leaves no descriptor
  open.""",
  ['histories', 'crash points'],
  """every history of up to three (thorough four) failures of eleven kinds, in
  both protocols""",
  """The recovery depends on sequences of failures of the network.""",
  ['src/slave_net.c', 'src/slavenbs/reader.c', 'src/slavefp/reader.c'],
  [('reconnection', 'src/slave_net.c slavenet_reopen'),
   ('reading errors', 'src/slavenbs/reader.c slavenet_loop_nbs1')],
  ['connections made to the virtual master', 'products delivered'],
  DFS + ' (slave threads against virtual masters, virtual clock)',
  """tcp_client_open_conn() itself is replaced by a virtual one.""")

P('C17', 'Each client of the server is held exactly once, and let go cleanly',
  """The server holds at most one connection for each address, the newest, and
  at most the configured number; a client that is not allowed, over the
  maximum, or asks for a protocol that is not being served is disconnected. A
  client that does not identify itself in the time allowed is taken for an
  EMWIN one, and disconnected if EMWIN is not being served. The number of
  clients the server counts is that of those connected. Whatever order clients
  come, identify themselves, come again, close and reset in, each connection
  that ends is closed exactly once and its thread ends; no descriptor, thread,
  memory or position for reading the spool is kept by it, and no other client
  is affected, also when its thread is canceled in the middle of anything.
  Whenever it is asked to stop, the server stops in a bounded time and leaves
  nothing behind.""",
  ['histories', 'schedules'],
  """every history of four events (thirteen kinds: connecting with seven
  identifications from three addresses, closing, resetting, announcing) with
  the next one at once or after the server is quiet; seven configurations;
  stopping at sixteen moments of each history; clients taken away while they
  hold or wait for a position of the memory spool; threads that cannot be
  created and connections that cannot be accepted; stopping with any two
  preemptions""",
  """The table of connections is changed by one thread per client, the thread
  that accepts and the one that queues. No test makes two clients connect.""",
  ['src/serverm.c', 'src/serverc.c', 'src/serverf.c',
   'src/libconnth/poll.c', 'src/libconnth/conn.c', 'src/libconnth/ce.c',
   'src/libconnth/cs.c', 'src/libconnth/cq.c',
   'src/libspoolbdb/spoolslots.c', 'src/nbs1s.c', 'src/emwin.c'],
  [('acceptance', 'src/libconnth/poll.c process_new_connection'),
   ('identification', 'src/serverm.c'),
   ('end of a client', 'src/libconnth/ce.c conn_element_release')],
  ['virtual connections open and closed', 'threads', 'allocated bytes',
   'what each client receives'],
  DFS + ' (server threads against virtual clients, virtual clock)',
  """Sockets, access lists and the EMWIN filter are virtual; the threads run
  in one fixed order except where stated (delay bounding).""")

P('C24', 'Every client gets every product, whatever the others do',
  """Each client is sent every announced product that belongs to its protocol,
  once, in the order of the announcements and with exactly its bytes, whatever
  other clients do: not reading, pausing, closing, resetting, being silent or
  having their queues full. A client that does not read in the time allowed is
  disconnected. If it connects again in the time allowed it is sent the
  product that was interrupted from its start and all those that follow, so
  that nothing is lost; nothing but whole products in order is sent to it in
  any case. No more products than the configured limit wait for a client.""",
  ['inputs', 'schedules', 'histories'],
  """three protocols of the client, four of another client and five things it
  may do at nine positions in the stream of bytes; reconnections at sixteen
  moments and six positions; one preemption or change of the order of
  simultaneous timeouts anywhere around a reconnection; queue limits""",
  """A stuck client must not harm another one, and the reconnection has to
  find its old queue and thread at any moment; none of this is tested.""",
  ['src/serverm.c', 'src/serverc.c', 'src/serverf.c',
   'src/libconnth/poll.c', 'src/libconnth/conn.c', 'src/libconnth/ce.c',
   'src/libconnth/cs.c', 'src/libconnth/cq.c', 'src/nbs1s.c',
   'src/emwin.c', 'src/nreadn.c'],
  [('sending', 'src/serverc.c send_client'),
   ('queueing', 'src/serverm.c server_send_client_queues'),
   ('reconnection', 'src/libconnth/poll.c')],
  ['bytes received by each virtual client'],
  DFS + ' (server threads against virtual clients, virtual clock)',
  """Sockets, access lists and the EMWIN filter are virtual. The streams are
  five products long.""")

P('C18', 'The policies for each client are applied to that client',
  """With the netfilter enabled a client is sent exactly the products for which
  the script leaves allow(NAME) true (else allow(ADDRESS), else allow(0), else
  nothing is allowed), evaluated for that client and that product with the
  values of that product. After a reload the new script decides; while it
  cannot be loaded products wait and are not lost, and the server can still
  be stopped. A script that fails for a product does not affect others. Each
  client has the timeouts of its own entry in clientoptions, as far as given
  there, and the global ones otherwise, whatever other entries there are.""",
  ['inputs', 'histories'],
  """sixteen scripts, each followed by each other after a reload of six kinds
  (good, three kinds of bad ones later repaired, stopping while bad), for the
  nine pairs of protocols of two clients; every pair of entries from eight
  names (prefixes and suffixes of each other) and eight lists of values""",
  """The decisions depend on the pairing of scripts, clients and products, and
  the option string is free text; no test uses either.""",
  ['src/serverm.c', 'src/serverf.c', 'src/sfilter.c', 'src/access.c'],
  [('decision', 'src/serverf.c exec_net_filter'),
   ('reload', 'src/serverm.c server_loop'),
   ('options', 'src/serverm.c lookup_client_options')],
  ['bytes received by each virtual client', 'the options in the table'],
  DFS + ' (server threads against virtual clients, real Tcl scripts)',
  """Sockets and access lists are virtual. The netfilter.tcl that is installed
  is not run; the scripts are those of the harness.""")

P('C16', 'Each local filter gets each product, whatever the others do',
  """Each announced product is written once, in order and with its values, to
  each filter in use: a line in the documented format to the pipes (with the
  size of the product when the spool is in memory), the packet to the fifos. A
  filter that ended, does not read in the time allowed, or cannot be started,
  misses only the products of that time; it is started or opened again with the
  next product, and the other filters are not affected. The filters in use are
  those of the list in the configuration and of the filters directory (fifos
  that are being read, and executable files), each once, read at the start and
  at each reload: pipes that were removed are told to end and not used again,
  new ones are started, and the fifos that are open stay open. A reload asked
  for during another one is not lost. When the program stops all are told to
  end and closed, and nothing is left open.""",
  ['histories', 'crash points'],
  """every history of four events of fifteen kinds (announcing one or several
  products, a filter ending, files coming and going in the directory, readers
  of fifos coming, going and stopping to read, filters that cannot be started,
  reloads, a reload during another, reports) in four configurations and two
  kinds of spool; all pairs of contents of the directory before and after a
  reload""",
  """The filters are other programs that may end or stop at any time, and the
  list of them is changed while products arrive; no test runs one.""",
  ['src/filters.c', 'src/pfilter.c', 'src/nbspq.c', 'src/packfpu.c',
   'src/nreadn.c'],
  [('sending', 'src/filters.c sendto_filters'),
   ('reload', 'src/filters.c e_reload_filters'),
   ('list', 'src/filters.c add_filter_entry')],
  ['what is written to each program and fifo', 'programs started and ended'],
  DFS + ' (filter thread against virtual programs and fifos)',
  """popen, pclose and the writing end of the fifos are virtual; the directory
  is real. A filter that does not read its pipe blocks the thread, by
  design.""")

P('C23', 'The masters and their options are exactly those configured',
  """The list of masters (and the input fifo, when enabled) gives exactly one
  reader for each entry, in order, each with its own protocol, host and port
  (the default one if not given) or fifo, and its own options, as far as they
  are given and are numbers, and the configured ones otherwise, whatever the
  other entries are. The readers of files use each its own channel, different
  from those of the noaaport receivers. A list with any entry that is not valid
  is refused, without a crash and leaving nothing, and so it is when there is
  not enough memory.""",
  ['inputs', 'crash points'],
  """every string of up to six characters of an alphabet of ten; products of
  thirteen types, four hosts, four ports and up to seven options of seven
  values; lists of up to three of fourteen entries with all the separators and
  modes; every allocation failing""",
  """The list is free text with optional parts; the tests do not parse any.""",
  ['src/slavet.c', 'src/slave.c', 'src/strsplit.c', 'src/stoi.c'],
  [('entries', 'src/slavet.c slave_element_configure'),
   ('options', 'src/slavet.c slave_element_override_options'),
   ('channels', 'src/slavet.c slave_table_create')],
  ['the table of readers', 'allocated bytes'],
  DFS + ' (all strings within the bounds) against an independent parser',
  """The parser of the harness follows READMEs/master-slave-settings.README;
  where that is silent (an empty port with nothing after it is refused) it
  follows the program.""")

P('C26', 'The daemon starts completely or not at all, obeys its signals and ends cleanly',
  """The program comes up with exactly the channels configured, or, if some step
  of starting fails, ends in order with an error status. At whatever moment
  TERM, INT, QUIT or ABRT arrives, every thread ends within a few seconds,
  every connection, program, fifo and data base is closed and the pid file and
  the state fifo are removed, and so it is after any single operation (of
  files, data bases, threads, sockets, memory) has failed. One HUP at any moment
  makes the filters and the filters of the server be read again once; ALRM and
  PIPE do nothing. Each periodic task is done once in each of its configured
  periods, and the scheduler once when the minute changes. Each frame that is
  received is handed on once, complete and in order for each channel. A second
  instance does not start, and leaves alone all that belongs to the first.""",
  ['schedules', 'crash points', 'inputs', 'histories'],
  """the whole program, from main(), in seven configurations: a TERM at every
  scheduling point of a run (with no other preemption; thorough: one more), a
  HUP, ALRM or PIPE at every one; each single file, data base, thread, socket
  and program operation failing, and each single allocation; every sequence of
  four steps of time with each event at each of seven periods; up to 11
  addresses and ports with each one failing to open; sequences of three
  (thorough four) receptions in two channels with errors""",
  """No test runs the daemon; signals and failures at particular moments need a
  controlled scheduler.""",
  ['src/main.c', 'src/init.c', 'src/signal.c', 'src/per.c', 'src/npcast.c',
   'src/reader.c', 'src/exec.c', 'src/pid.c'],
  [('start and end', 'src/main.c main'), ('end', 'src/init.c cleanup'),
   ('signals', 'src/signal.c signal_thread'), ('periods', 'src/per.c periodic'),
   ('channels', 'src/npcast.c np_open'), ('frames', 'src/reader.c loop_channel')],
  ['threads, descriptors, programs and data bases left', 'exit status',
   'files left', 'times of each task', 'frames handed on'],
  DFS + ' (the whole daemon in fibers, virtual time and network)',
  """The configuration file is not read (the values it gives are set instead);
  daemon() returns at once; sockets and programs are virtual. A jump of the
  clock of just an hour may hide a change of minute from the scheduler.""")

P('C10', 'The configuration and the options of the command line do what they say',
  """Each variable of the configuration file, whatever the value and wherever in
  the file or in a second file it is set, sets its own parameter to that value
  and no other parameter; what is not set keeps its default, a later setting
  replaces an earlier one, and the variables that are not known are ignored. A
  file that is not valid Tcl, or that was asked for and is not there, is
  refused, as is a value that is not a number where one is needed, a number
  outside of the range of the parameter (a negative size or period, an
  unknown type), and an empty string where a name is needed; every other value
  is accepted. What -C prints is what would be used. Each option of the command
  line sets its flag, in any order and combination; -f, -r and -s together, and
  unknown options, are refused before anything is done.""",
  ['inputs'],
  """each of the 129 variables with each of 21 numbers (or 3 strings) given in
  four ways; every ordered pair of variables; all of them at once; missing and
  wrong files; all sequences of up to 3 (thorough 4) of 12 options""",
  """No test reads a configuration file. The variables are in parallel tables
  whose entries are easily exchanged: only trying each against all the others
  shows it.""",
  ['src/conf.c.in', 'src/libtclconf/tclconf.c', 'src/main.c', 'src/init.c'],
  [('settings', 'src/conf.c.in configure'),
   ('ranges', 'src/conf.c.in validate_configuration'),
   ('reading', 'src/libtclconf/tclconf.c'), ('options', 'src/main.c parse_args')],
  ['every parameter after reading', 'accepted or refused', 'what -C prints'],
  'model checking: exhaustive enumeration of configurations, executed on the '
  'real code against a table of the parameters',
  """The values are of a fixed list; what the parameters then do is in the other
  properties. The configuration that is distributed is not read, as it looks for
  files in the system's directories.""")

P('C25', 'The statistics count what happened',
  """The line written to the statistics file at the end of each period has, for
  that period and nothing else, the number and total size of the frames received,
  processed, with a bad format, and of the jumps of their numbers; of the
  products begun, completed, incomplete, aborted, rejected by the configuration,
  and damaged or not written; of the retransmissions seen, received complete,
  processed, ignored (received already, or so configured) and recovered (the
  first one was incomplete). Each event is counted once, by any number of
  channels or masters at the same time, and also when the period ends meanwhile;
  all the counters start again from zero, and the index of retransmissions is
  that of the last period with products.""",
  ['inputs', 'schedules'],
  """all sequences of up to 5 (thorough 6) frames of 23 kinds, good, bad, missing
  or out of order, on a channel, and of 8 kinds on two channels and 10 kinds of
  blocks with two masters; all histories of 4 (thorough 5) products and
  retransmissions; two threads that count and one that reports, with up to 2
  (thorough 3) preemptions at each access to the counters""",
  """The tests have no frames, and no threads: lost or double counts appear only
  with particular sequences and interleavings.""",
  ['src/stats.c', 'src/framep.c', 'src/nbsp.c', 'src/per.c'],
  [('counters', 'src/stats.c'), ('frames', 'src/framep.c sbnframeproc'),
   ('products', 'src/nbsp.c process_pctl')])

P('C13', 'Each list of patterns accepts what it says, and for its own purpose',
  """A list of regular expressions accepts a name if the last expression of the
  list that matches it is not negated (with !), and rejects it if that one is
  negated or if none matches; a list that is not set accepts all the names, an
  empty one none, empty items are ignored, and a list with an expression that is
  not valid is refused. Each of the eight lists of the configuration decides its
  own matter and no other: what is received, what is given to the filters, to
  the server, what is sent to the NBS1, NBS2 and EMWIN clients, which compressed
  products are saved compressed, which are remembered to recognise their
  retransmissions.""",
  ['inputs', 'configurations'],
  """all lists of up to 3 of 16 expressions with 8 names; each of the eight lists
  with five values, beside each other one; each failing allocation; the daemon
  receiving 4 products and their retransmissions with 4 values of each of five
  lists; the server with 4 values of each of the three lists of the clients, two
  clients of each of the protocols""",
  """No test sets a pattern: the eight are handled by identical code in which one
  is easily taken for another.""",
  ['src/ure.c', 'src/nbspre.c', 'src/framep.c', 'src/nbsp.c', 'src/serverm.c'],
  [('matching', 'src/ure.c uwildregex_match'), ('the eight', 'src/nbspre.c'),
   ('used', 'src/framep.c start_activepce'), ('used', 'src/nbsp.c e_export_product'),
   ('used', 'src/serverm.c server_send_client_queues')])

P('C28', 'Only a high load sheds retransmissions and delays the readers',
  """When the load average, checked periodically, reaches the hard limit of the
  configuration each reader waits the configured seconds before each frame; when
  it reaches the soft or the hard limit and the index of retransmissions of the
  last period has reached its maximum, the retransmissions are not received and
  everything else is. A limit of zero is no limit. When the load is low again, or
  cannot be known, nothing is delayed and nothing rejected.""",
  ['histories', 'configurations'],
  """all histories of 4 (thorough 5) of 8 operations (products, retransmissions,
  ends of a period, checks of four loads) in 16 configurations; all histories of
  4 (thorough 6) of 5 loads with each reader, 4 limits, 2 delays""",
  """No test can set the load or wait for it.""",
  ['src/load.c', 'src/reader.c', 'src/framep.c', 'src/stats.c'],
  [('limits', 'src/load.c verify_load_ave_condition'),
   ('delay', 'src/reader.c load_ave_cond_sleep'),
   ('rejection', 'src/framep.c start_activepce')])

P('C20', 'nbspinsert announces a file once, and only when it is complete',
  """Each run of nbspinsert that exits with success has written to the input fifo
  of the daemon exactly one whole record, with the arguments that it was given,
  not mixed with those of other runs at the same time, however long the record
  and full the fifo; with -i the file already has, at that moment, exactly the
  bytes of the input and nothing of an older one. A run that fails (bad
  arguments, a file that cannot be saved, no daemon reading) writes nothing that
  the daemon would take for a record, leaves no part of a file, and exits with
  another status. Numbers out of range are refused. The daemon announces every
  file inserted, in order, with what was given.""",
  ['schedules', 'inputs', 'crash points'],
  """all lengths of the record around 1024, 4096 and 65536 bytes; all values of a
  list for each number; sizes and forms of the input over older files; two
  (thorough three) runs with up to 2 (thorough 3) preemptions and the fifo empty,
  almost full or full; each failing system call; the runs, and the reader of the
  daemon, together""",
  """No test runs two insertions together; records longer than the atomic writes
  of a pipe are mixed only by particular schedules.""",
  ['tools/nbspinsert/nbspinsert.c', 'src/slavein.c', 'src/stoi.c'],
  [('one record at a time', 'tools/nbspinsert/nbspinsert.c'),
   ('reader', 'src/slavein.c')],
  ['the bytes in the fifo', 'exit status', 'the saved file'],
  DFS + ' (the program, several instances in one process, against a model of the '
  'fifo, and the reader of the daemon)',
  """The fifo is a model with the semantics of POSIX: writes up to PIPE_BUF
  atomic, longer ones in pieces of any size down to PIPE_BUF. Killing the program
  between operations is not explored.""")

P('C22', 'nbspmcast sends what the daemon receives as the same products',
  """For each file given, on the command line or in the standard input, in order,
  nbspmcast sends the frames of one product, numbered consecutively from the
  numbers asked for, which the receiver of the daemon reassembles to the bytes of
  the file, with the name of its header and the next sequence number. A file that
  cannot be read or cannot be sent whole does not prevent the others from being
  sent, and is shown in the exit status; none of it is received as a product. The
  frames go to the address, port and interface of the options, and options that
  are not valid send nothing.""",
  ['inputs', 'histories'],
  """every size within 45 bytes of 0 to 4 full frames, with numbers at their
  limits; all lists of up to 3 (thorough 4) of 7 files, good and missing, in 4
  forms; each failing system call and allocation; all combinations of the
  options; the largest files""",
  """The tests do not send a product: the sender and the receiver are separate
  implementations of the protocol, which only agree if each limit does.""",
  ['tools/nbspmcast/nbspmcast.c', 'tools/nbspmcast/sbnpack', 'src/sbn.c', 'src/framep.c'],
  [('sender', 'tools/nbspmcast/sbnpack'), ('receiver', 'src/framep.c sbnframeproc')],
  ['the frames sent', 'the products in the queue of the processor'],
  DFS + ' (the program, in one process with the receiver of the daemon)',
  """The frames are intercepted at sendto; the socket options are those given to
  the one function that opens the socket.""")

P('C21', 'nbspunz gives back the bytes of the compressed products',
  """For every file that is a header followed by frames compressed as in the
  network, the last of which may not be compressed, nbspunz writes exactly the
  bytes of the frames in order, as many frames as -n asks for, and without the
  first bytes that -c or -C ask to cut from the first one. A file that is cut or
  damaged in any place never crashes it: it writes what can be decoded, or fails
  with nothing written. nbspz writes what nbspunz, or zlib, decompress to the
  bytes of its input, at every level. A failure to read or to write all is shown
  in the exit status.""",
  ['inputs', 'crash points'],
  """up to 3 (thorough 4) frames of 8 sizes, with sizes at the limit of a frame,
  compressible and not; 5 forms of the last; all the options; every truncation,
  and every byte removed, inserted or changed to 8 values; each failing operation
  and allocation""",
  """No test runs these programs; what they did with frames near the size of the
  buffer, or with the two magic bytes inside the compressed data, depends on
  particular bytes.""",
  ['filters/filterlib/c/nbspunz.c', 'filters/filterlib/c/nbspz.c',
   'filters/filterlib/c/mfile.c'],
  [('decoder', 'filters/filterlib/c/nbspunz.c process_frames'),
   ('memory file', 'filters/filterlib/c/mfile.c')],
  ['the output', 'exit status'],
  DFS + ' (the programs in one process, against a decoder made of the functions of zlib)',
  """The frames are built with zlib. -n and -c count frames of at most 5200
  bytes, the largest of the network.""")

P('C15', 'nbspfile, nbsppipe and nbspcat copy products whole',
  """For every product, of any size, nbspfile and nbsppipe write exactly its
  bytes without the ccb (of 24 bytes, of the size given, or none if there is
  none or -n says so), nbspfile without the WMO and AWIPS header lines with -w,
  preceded and followed by the header, with the sequence number, and trailer asked
  for; to the standard output or to a file, which is replaced whatever it had or
  appended to; and with -z as compressed pages that decompress to the product. A
  file that has no data, or that cannot be read or written whole, is shown in the
  exit status and leaves nothing of it in the output when it is corrupted.
  Arguments that are not valid write nothing. nbspcat does the same for each
  command in its input, independently of the others: one that fails does not
  affect those that follow. Programs that write to the same file at the same time
  leave it as if one had followed the other.""",
  ['inputs', 'histories', 'schedules'],
  """16 sizes around the headers and the pages x 5 forms of ccb x forms of output x
  options; around 4 and 8 MB; all histories of 3 (thorough 4) of 20 commands; each
  failing operation; two programs with up to 2 (thorough 3) preemptions""",
  """There are no tests of these programs; what is lost depends on the size
  relative to the pages, on the commands before, or on other programs.""",
  ['filters/filterlib/c/nbspfile.c', 'filters/filterlib/c/nbsppipe.c',
   'filters/filterlib/c/nbspcat.c', 'filters/filterlib/c/io.c', 'src/strsplit.c'],
  [('nbspfile', 'filters/filterlib/c/nbspfile.c process_file'),
   ('output', 'filters/filterlib/c/io.c fopen_output'),
   ('commands', 'filters/filterlib/c/nbspcat.c process_input')],
  ['the bytes of the outputs', 'exit status'],
  DFS + ' (the programs in one process, against an independent copy of what is asked)',
  """The name of the product says whether it has the line of the AWIPS header, as
  the daemon names them. In the schedules a write of a page is divided in two.""")
P('C27', 'The decoders give what is in the product, and refuse what is damaged',
  """nbspgrib, nbspgrib2, nbspradinfo, nbsprad2info, nbspradgis, nbspsat,
  nbspsatinfo and nbspsatgis give, for every well formed product of their type,
  from a file or the standard input, however it is read, exactly what the product
  has: the values of its header in the format asked for, the sections, the
  radials and pixels with their values, and their positions, in each of the output
  formats. A product that is cut or damaged in any place is reported by the exit
  status or gives something that depends only on its bytes: it never crashes the
  program, nor makes it read or write outside of its memory, nor use data that it
  did not read. A failure to read, to get memory or to write all the output is
  shown in the exit status. The files written have the names asked for, or those
  of the product, in the current directory.""",
  ['inputs', 'crash points'],
  """all lists of up to 3 sections of GRIB; all lists of up to 2 (thorough 3)
  radials of 6 forms; images of several sizes in the 5 projections; all headers,
  options and forms of input; every truncation, and every byte removed, inserted
  or changed to 10 values; each failing operation and allocation""",
  """There are tests only for the decoder of GOES-R; the others decode bytes that
  come by radio, and what a damaged one does depends on which byte was damaged.""",
  ['filters/filterlib/c/nbspgrib.c', 'filters/filterlib/c/nbspgrib2.c',
   'filters/filterlib/c/nbsprad2info.c', 'filters/filterlib/c/dcnids',
   'filters/filterlib/c/dcgini'],
  [('radar', 'filters/filterlib/c/dcnids/nbspradgis.c'),
   ('satellite', 'filters/filterlib/c/dcgini/nbspsatgis.c'),
   ('grids', 'filters/filterlib/c/nbspgrib2.c')],
  ['the output and the files written', 'exit status'],
  DFS + ' (the programs in one process, against an independent decoder of what the '
  'harness encodes)',
  """The products are made by the harness from the documents of the formats. Each
  is decoded twice with different previous contents of the memory. Positions are
  compared with a tolerance of the order of the output format.""")

P('C29', 'What is scheduled runs when its schedule says',
  """A command of the schedule of the daemon, or of nbspscheduler, is executed, with
  its arguments, in each minute (hour, with -h) that its time specification
  describes - M, M=, M/n, H=, Hmm/n, D=, Dhhmm/n, W=, Whhmm/n, in local time or,
  with a final g, in GMT - and in no other, whatever the time zone. The schedule is
  the last one found in the configuration directories (the one given, with -f),
  and is read with the variables given with -M; its commands run in order. A
  specification that is not valid, or a command that fails, is reported and does
  not affect the others. A function registered with the periodic package runs once
  in each of its periods, at the first call in it, and its failure does not affect
  the others. The day, hour and minute of a product are taken as those nearest to
  the present.""",
  ['inputs', 'histories'],
  """all specifications of up to 2 (thorough 3) entries over the limits of each
  unit, every n, at all the limits of each day of three months, in three time
  zones; all schedules of up to 2 (thorough 3) lines of 12 kinds in 8 sets of
  files; calls with several steps across days with and without a change of the
  hour; every day and hour seen from every day of 12 months""",
  """A test runs at one time; the specification of days was an error at all times,
  which nobody saw, and others only fail at particular hours of particular days.""",
  ['filters/filterlib/tcl/mscheduler.tcl', 'filters/filterlib/tcl/hscheduler.tcl',
   'filters/filterlib/tcl/periodic.tcl', 'filters/filterlib/tcl/util.tcl',
   'filters/scheduler/tcl'],
  [('minutes', 'filters/filterlib/tcl/mscheduler.tcl match_timespec'),
   ('hours', 'filters/filterlib/tcl/hscheduler.tcl match_timespec'),
   ('periodic', 'filters/filterlib/tcl/periodic.tcl nbsp::periodic::run'),
   ('dates', 'filters/filterlib/tcl/util.tcl guess_clock_seconds')],
  ['the commands executed at each time'],
  DFS + ' (the scripts, in an interpreter with the clock of the harness, against an '
  'independent evaluation of the specifications)',
  """The clock and the execution of programs are those of the harness; lists have
  the number of digits documented.""")

P('C30', 'The cleanup deletes exactly what its configuration says',
  """Each time that the hourly cleanup runs, in each directory of its configuration
  whose time specification has come, it deletes exactly the files that the
  expression given there selects: those that find selects, those in excess of the
  count given, the oldest by name (-c, in the excluded subdirectories neither), or
  those listed in the inventories selected (-i) and then the inventories. It
  deletes nothing else, and nothing in other places, and each file that it deletes
  is shown when that is asked for. The specification used for a directory is the
  last one of the configuration files in their order (or of the file given, or
  the only line, with -f and -l). A wrong line, a directory that does not exist,
  an inventory that cannot be read or a file that cannot be deleted does not
  affect the others. nbspinvrm deletes the files listed in its inventories, and
  then them; with -t nothing.""",
  ['inputs', 'faults'],
  """all configurations of up to two lines of some 20 expressions and 4 times over
  three directories and three configuration files, each option of the script; all
  inventories of up to 3 lines of 9 kinds, missing, undeletable and directory
  files among them, with each set of options""",
  """No test runs the cleanup: an error deletes data that is wanted, or lets the
  disk fill up, and several of the documented options ended it or were taken for
  others.""",
  ['scripts/nbspcleanup.tcl', 'utils/nbspinvrm/nbspinvrm.c'],
  [('cleanup', 'scripts/nbspcleanup.tcl'),
   ('inventories', 'utils/nbspinvrm/nbspinvrm.c')],
  ['the files left', 'output', 'exit status'],
  DFS + ' (the script and the program, in directories of their own as an '
  'unprivileged user, against an independent evaluation of the configuration)',
  """find is the one of the system; the program is executed for real.""")

P('C31', 'The filters know each product by its own values',
  """For each product announced to a filter, the variables that its rules use hold
  the values of that product, and nothing of the one before: what the announcement
  says (sequence, types, name, path, size), the parts of the name (station, wmo id,
  awips id, in both cases), the time in its header, its first 512 bytes and whether
  they are text, and, when they are asked for, the values decoded from the data of a
  radar (those sent compressed as well), level 2 or GRIB product: position, time,
  mode and code; model, grid, times and forecast periods, by the most specific entry
  of the tables in the documented order. The times in the variables are those of the
  data if it has one, else of the header, else the present. Data that is damaged or
  missing leaves them empty, is reported, and never ends the filter. The functions
  of the library that the filters use do what they say: the lists of accept and
  reject patterns, the search for configuration and rule files in the directories
  of the site, saving and piping of a product (whole, without the ccb, with the
  headers asked for; errors are logged and not passed on).""",
  ['inputs', 'histories', 'faults'],
  """all names of 3 stations, 6 headers, 8 forms and 10 endings, with and without
  metadata and another product before; each byte at 6 places of texts of 13 sizes;
  radar products of 8 headers and 5 identifiers, plain, compressed, damaged and
  missing; GRIB products of all the parts of the tables and all units of time; all
  lists of up to 3 (thorough 4) patterns and options; all sets of configuration
  files; each failing output""",
  """The only test of the library is a program that prints one value of the tables;
  a value left from the product before, or a wrong precedence, sends products to
  the wrong files only for some sequences of them.""",
  ['filters/filterlib/tcl'],
  [('values', 'filters/filterlib/tcl/filters.lib'),
   ('GRIB', 'filters/filterlib/tcl/filters-gribid.lib'),
   ('utilities', 'filters/filterlib/tcl/util.tcl')],
  ['the variables', 'files written', 'messages'],
  DFS + ' (the real library in an interpreter, executing the real programs)',
  'the executions are of the code itself')
