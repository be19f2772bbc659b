"""Every property: statement, anchors, and how it is decided (checks themselves are in plan.py)."""
PROPS = []


def P(id, title, statement, over, q, why, files, mech, tech=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                      tech=tech or "", note=note or "", na=na or ""))


SIMTECH = "stateless model checking of the real client and servers in a deterministic simulator, "
SIMNOTE = (" The real client library and servers run unmodified; Mercury, MPI, threads, clock and file system are deterministic "
           "stand-ins (sim/), which are trusted. Exhaustive inside the stated bounds, silent outside them.")
NOTESTS = "The five tests that run here never start a server and assert nothing about it; the functional tests need Mercury and sample one "

P("C01", "A region read returns the latest data written to every cell",
  "For an object of any region partition and element size, a read transfer that starts after a write transfer has completed returns, for "
  "every cell of the requested region, the value of the last completed write that covers it. This holds whatever regions (equal, nested, "
  "partly overlapping, disjoint) earlier transfers used, however many servers hold the object, and whether the data is still in the "
  "server's cache, has been flushed by the background flush, or both.",
  "histories inputs configurations",
  "all sequences of 1-D writes, reads and flush-period clock advances up to the depth bound over every sub-interval of a small object, for "
  "the four region partitions, element sizes 1/4/8, 1-3 servers, cache limit on and off, one and two objects",
  NOTESTS + "write and one read of the same region.",
  "src/server/pdc_server_region/pdc_server_data.c src/server/pdc_server_region/pdc_server_region_cache.c src/server/pdc_server_region/pdc_server_region_transfer.c src/api/pdc_region/pdc_region_transfer.c",
  [("region cache: register, merge, fetch, flush", "src/server/pdc_server_region/pdc_server_region_cache.c PDC_region_cache_register, PDC_region_fetch, PDC_region_cache_flush"),
   ("storage of regions by file offset", "src/server/pdc_server_region/pdc_server_data.c PDC_Server_data_io_via_shm / PDC_Server_data_write_out / PDC_Server_data_read_from"),
   ("splitting a transfer over servers", "src/api/pdc_region/pdc_region_transfer.c static_region_partition, pack_region_metadata_query")],
  SIMTECH + "all operation sequences against a per-cell register", "Per-cell register oracle on every read of every history." + SIMNOTE)

P("C02", "Multi-dimensional transfers move exactly the selected cells",
  "A transfer between a local region and a remote region of an object with one, two or three dimensions moves exactly the cells of the remote "
  "region in row-major order: a read puts each cell at its place in the local region and no other byte of the user's buffer is changed, and a "
  "write changes no cell outside the remote region and not the user's buffer. No server or client reads or writes outside its own memory "
  "while doing so.",
  "inputs histories configurations",
  "all sub-boxes of small 1-D/2-D/3-D objects as remote region, in sequences of writes and reads, with local regions of the same shape, "
  "flattened, or at an offset of the buffer, for all partitions and several element sizes; memory checked with AddressSanitizer",
  NOTESTS + "shape, and nothing looks at the bytes around the region.",
  "src/api/pdc_region/pdc_region_transfer.c src/server/pdc_server_region/pdc_server_data.c src/server/pdc_server_region/pdc_server_region_cache.c src/utils/pdc_region_utils.c",
  [("packing and unpacking user buffers", "src/api/pdc_region/pdc_region_transfer.c pack_region_buffer, release_region_buffer"),
   ("sub-region copies", "src/utils/pdc_region_utils.c memcpy_subregion, memcpy_overlap_subregion, PDC_region_overlap_detect")],
  SIMTECH + "all shapes against a cell oracle, with guard bytes and AddressSanitizer", "Cell oracle plus guard bytes around every buffer." + SIMNOTE)

P("C03", "Concurrent clients and the flush thread never lose or revive data",
  "When several clients transfer overlapping regions of one object at the same time, in every order in which messages may be delivered and "
  "servers, their flush threads and clients may run, every cell read by a transfer holds a value written by a write that was not already "
  "overwritten before the read began. Every transfer finishes, and no execution deadlocks or touches freed memory.",
  "schedules histories",
  "two clients, one or two transfers each on every pair of regions of a small object, with 1-2 servers and the flush thread waking at any "
  "time; all schedules with at most the stated number of deviations from the default order and preemptions at mutex operations",
  "A test run sees one schedule; the races live between a request handler, its bulk-transfer callback and the flush thread.",
  "src/server/pdc_server_region/pdc_server_region_cache.c src/server/pdc_server_region/pdc_server_region_request_handler.h src/server/pdc_server_region/pdc_server_region_transfer.c",
  [("cache mutexes and flush thread", "src/server/pdc_server_region/pdc_server_region_cache.c PDC_region_cache_clock_cycle, pdc_obj_cache_list_mutex"),
   ("transfer request state", "src/server/pdc_server_region/pdc_server_region_transfer.c PDC_commit_request, PDC_finish_request, PDC_check_request")],
  SIMTECH + "deviation- and preemption-bounded exploration of all schedules against a regular register",
  "Dynamic and local partitions are checked with a safe (not regular) register: a cell written concurrently with the read may hold anything." + SIMNOTE)

P("C04", "Outstanding transfers complete and take effect at wait",
  "Whatever mix of transfers is outstanding at one time, and whether they are started one by one or in batches, every transfer is reported "
  "complete by wait, wait-all, status polling, the closing of its object or, if the object has POSIX consistency, its start. After that, a write is visible to later reads and a read has "
  "delivered its data to the user's buffer. A finished transfer can be started again, with what the buffer then holds; starting one that is "
  "outstanding is refused and changes nothing. Waiting, polling and closing never hang, fail or disturb other outstanding transfers, in any "
  "order in which they are done.",
  "histories schedules configurations",
  "all sequences of start, batched start-all, wait, wait-all, status, object close and clock advance up to the depth bound with up to three "
  "transfers outstanding, for all partitions, both consistency modes and 1-2 objects, also with late data movement, data movements that overtake each other and reordered messages",
  NOTESTS + "order of starts and waits.",
  "src/api/pdc_region/pdc_region_transfer.c src/server/pdc_server_region/pdc_server_region_transfer.c src/server/pdc_server_region/pdc_server_region_request_handler.h src/api/pdc_client_connect.c",
  [("per-object list of outstanding transfers", "src/api/pdc_region/pdc_region_transfer.c attach_local_transfer_request, remove_local_transfer_request"),
   ("server-side request status and waiters", "src/server/pdc_server_region/pdc_server_region_transfer.c PDC_finish_request, PDC_try_finish_request"),
   ("batched packing", "src/api/pdc_region/pdc_region_transfer.c prepare_start_all_requests, PDCregion_transfer_wait_all")],
  SIMTECH + "all start/wait/status histories against a register oracle", "Hangs are seen as deadlock or horizon violations of the simulator." + SIMNOTE)

P("C05", "Region data survives closing and restarting the servers",
  "After the servers have been closed normally and started again from their checkpoint, every object that existed can be opened with its "
  "dimensions and type, and reading any of its regions returns the data last written before the close, for every partition and shape.",
  "histories configurations",
  "all sequences of writes up to the depth bound, for 1-3 objects, 1-D and 2-D, four partitions, several servers, then close and restart",
  "Restart needs two server lifetimes; no test that runs here starts even one.",
  "src/server/pdc_server.c src/server/pdc_server_region/pdc_server_data.c src/server/pdc_server_region/pdc_server_region_cache.c src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c",
  [("checkpoint and restart", "src/server/pdc_server.c PDC_Server_checkpoint, PDC_Server_restart"),
   ("flush on finalize", "src/server/pdc_server_region/pdc_server_region_cache.c PDC_region_server_cache_finalize"),
   ("region metadata of dynamic objects", "src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c transfer_request_metadata_query_checkpoint")],
  SIMTECH + "all write histories across a close and restart", "A virtual file system keeps what the first server lifetime wrote." + SIMNOTE)

P("C06", "Objects, containers and tags survive closing and restarting the servers",
  "After the servers are closed normally and started again from their checkpoint, exactly the objects and containers that existed before exist "
  "again, with the same IDs, attributes, dimensions, tags (name, type, value) and container; what had been deleted stays deleted. Everything "
  "that works before a restart works after it, and IDs handed out after the restart differ from those of all restored objects and containers.",
  "histories configurations",
  "all sequences of object, tag and container operations up to the depth bound before the restart (and, in some runs, also after it), for 1-2 "
  "servers, with names whose hashes collide; a complete audit through the client API after the restart",
  "Restart needs two server lifetimes and a history before it; no test that runs here starts a server.",
  "src/server/pdc_server.c src/server/pdc_server_metadata.c",
  [("checkpoint writer", "src/server/pdc_server.c PDC_Server_checkpoint"), ("checkpoint reader", "src/server/pdc_server.c PDC_Server_restart"),
   ("ID generation", "src/server/pdc_server_metadata.c PDC_Server_gen_obj_id")],
  SIMTECH + "all operation histories across a close and restart against a reference model",
  "The heap of the ended server is overwritten before the restart, so a checkpoint that holds pointers is seen." + SIMNOTE)

P("C08", "Object names map to exactly the objects created and not deleted",
  "Creating an object under a name that does not exist succeeds and gives it an ID no other object or container has; creating one under a name "
  "and time step that exist (by the same user and application) fails. Every client can open exactly the names that exist and gets the ID and attributes (type, dimensions, "
  "partition, consistency, user, application, time step, container) it was created with or that were set later. Listing and attribute "
  "queries (by user, application, name, time-step range, dimensions, text tag) return every matching object exactly once over all clients and no other; text tags added and "
  "application or location updated later are what is found afterwards. Deleting, by handle or by name, removes that object only, and a failed "
  "operation leaves everything as it was. A name or attribute is either kept whole or, if it is too long to be kept, refused. "
  "Names with equal hashes do not disturb each other. Operations of "
  "several clients at the same time have the results of some order of them.",
  "histories schedules configurations inputs",
  "all sequences of create, delete, set-dimensions, add-text-tag and update up to the depth bound on 2-3 names (two with the same hash) and two time steps, done in "
  "turn by 1-3 clients on 1-3 servers, each ended by an audit of every name by every client; and all schedules (one deviation from the default order of messages or clients) of one or two operations by each of 2-3 clients at the same time",
  NOTESTS + "create and open; the failures need collisions, deletions and re-creation in a particular order.",
  "src/server/pdc_server_metadata.c src/api/pdc_client_connect.c src/api/pdc_obj/pdc_obj.c src/commons/collections/pdc_compare.c",
  [("metadata hash table", "src/server/pdc_server_metadata.c PDC_insert_metadata_to_hash_table, find_metadata_by_id, find_identical_metadata, PDC_delete_metadata_by_id"),
   ("object create and open", "src/api/pdc_obj/pdc_obj.c PDC_obj_create, PDCobj_open_common"),
   ("queries", "src/server/pdc_server_metadata.c PDC_Server_get_partial_query_result; src/api/pdc_client_connect.c PDC_partial_query")],
  SIMTECH + "all operation sequences against a reference model of the name space", SIMNOTE.strip())

P("C09", "Tags behave as a map from names to typed values",
  "Each object and each container has its own map from tag names to values. Putting a tag makes exactly that value, size and type the one "
  "returned by every client for that name, replacing an earlier one. Deleting it removes it, and a tag never set or deleted is not "
  "returned. Operations on one tag, object or container never change another, even if names or their hashes are equal. Operations on deleted "
  "objects fail. Operations of several clients at the same time have the results of some order of them.",
  "histories schedules inputs",
  "all sequences of put, replace, delete, object delete and re-create up to the depth bound over 1-3 tag names, up to five values of different "
  "type and size, and up to four objects and containers that share names or hashes, done in turn by 1-2 clients; and all schedules (one deviation) of one operation by each of 2 clients",
  NOTESTS + "put and get.",
  "src/server/pdc_server_metadata.c src/api/pdc_obj/pdc_dt_conv.c src/api/pdc_obj/pdc_cont.c src/api/pdc_client_connect.c",
  [("server tag lists", "src/server/pdc_server_metadata.c PDC_add_kvtag_to_list, PDC_get_kvtag_value_from_list, PDC_del_kvtag_value_from_list"),
   ("client tag calls", "src/api/pdc_client_connect.c PDC_add_kvtag, PDC_get_kvtag, PDCtag_delete")],
  SIMTECH + "all operation sequences against a reference map", SIMNOTE.strip())

P("C10", "A tag query returns exactly the objects whose tags satisfy it",
  "A tag query with a tag name (exact, or a pattern with leading and/or trailing *) and a value (for strings also a pattern) returns the IDs of "
  "every existing object that has a matching tag of that type and value, and of no other object. It does so on every client, however the "
  "objects are spread over servers and after any history of setting, replacing and deleting tags and objects.",
  "histories inputs configurations",
  "all histories of tag and object operations up to the depth bound, each followed by 36 queries (6 name patterns, 6 values of three types) "
  "compared with the reference model, 2-4 objects on 1-3 servers",
  "A test runs one query on one history; wrong answers come from sizes, replaced values and patterns in combination.",
  "src/server/pdc_server_metadata.c src/api/pdc_client_connect.c src/commons/utils/string_utils.c src/commons/utils/query_utils.c",
  [("server-side matching", "src/server/pdc_server_metadata.c PDC_Server_get_kvtag_query_result"),
   ("merging the servers' answers", "src/api/pdc_client_connect.c PDC_Client_query_kvtag")],
  SIMTECH + "all histories, each with every query of a fixed set, against a reference model", SIMNOTE.strip())

P("C11", "An index search returns exactly the references whose entry matches",
  "A search key=value in the distributed index, where key and value each are exact or a pattern with leading and/or trailing *, returns every "
  "object reference that was inserted under a matching key and value and not deleted since, without duplicates, and none that matches no entry "
  "(not even by a suffix, which the suffix-tree index treats as an entry). This holds for every number of servers, every answer of the load "
  "balancing, every client, and every history of inserts and deletes, also by several clients at the same time, with the DART and both DHT "
  "placements.",
  "histories inputs configurations",
  "all histories of inserts and deletes up to the depth bound over six vocabularies on 1-6 servers, each followed by every query over every affix "
  "of the vocabulary; 2-3 clients inserting, deleting and searching at the same time in all schedules within one deviation; and the routing functions alone for every keyword of a bounded set on 1-12 (thorough: 1-40) servers",
  "A test inserts unrelated words on one server; the placement of a keyword depends on its letters, the number of servers and their load.",
  "src/server/pdc_server_metadata_index.c src/commons/index/dart/dart_core.c src/commons/collections/art.c src/api/pdc_client_connect.c",
  [("placement and routing", "src/commons/index/dart/dart_core.c get_server_ids_for_insert get_server_ids_for_query DART_hash DHT_hash"),
   ("the two-level index", "src/server/pdc_server_metadata_index.c create_index_for_attr_name delete_index_for_attr_name"),
   ("issuing queries", "src/api/pdc_client_connect.c PDC_Client_search_obj_ref_through_dart")],
  SIMTECH + "all histories, each with every query over the vocabulary, against a brute-force scan; plus exhaustive enumeration of keywords and "
  "server counts on the routing functions", SIMNOTE.strip())

P("C12", "Container names, members and tags stay consistent",
  "Creating a container under a new name gives it an ID of its own, creating it again gives the same container, every client opens exactly the "
  "containers that exist, deleting one removes only that one, and a name that was deleted can be created again as a new container. Adding and removing "
  "members, in any number and order, succeeds and corrupts nothing. Operations of several clients at the same time have the results of some order of them.",
  "histories schedules inputs",
  "all sequences of container create, delete, member add and remove (1, 2 and 70 members) and object create and delete up to the depth bound on "
  "2-4 container names by 1-2 clients on 1-2 servers; additions and removals of 1 to 65 members; all schedules (one deviation) of one operation by each of 2-3 clients",
  NOTESTS + "create.",
  "src/server/pdc_server_metadata.c src/api/pdc_obj/pdc_cont.c src/api/pdc_client_connect.c",
  [("container table", "src/server/pdc_server_metadata.c PDC_Server_create_container, PDC_Server_delete_container_by_name, PDC_Server_container_add_objs, PDC_Server_container_del_objs"),
   ("client container calls", "src/api/pdc_obj/pdc_cont.c PDCcont_create, PDCcont_open, PDCcont_del")],
  SIMTECH + "all operation sequences against a reference model", "No API returns a container's members, so of those only success and memory safety are judged." + SIMNOTE)

P("C07", "A crash during a checkpoint leaves a checkpoint to restart from",
  "If all processes die at any moment after a checkpoint has completed, also in the middle of any file write of a later checkpoint or of the normal "
  "close, each server can be restarted and presents exactly what it held at its last completed checkpoint: the same objects, "
  "containers, IDs, dimensions and tags. Region data that was in storage then and not written since is still read back. A checkpoint whose "
  "writes fail does not replace the previous one. The recovered servers work normally, and what they then store survives further restarts.",
  "crash_points histories configurations",
  "all crash points (before, and half way into, every file mutation) and all positions of a failing write in the second checkpoint or the close, "
  "for all pairs of short histories before and after the first checkpoint, 1-3 servers, all partitions; then restart, audit, close, restart, audit",
  "No test kills a server, let alone at every file operation.",
  "src/server/pdc_server.c src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c src/server/pdc_server_metadata.c",
  [("checkpoint writer", "src/server/pdc_server.c PDC_Server_checkpoint"), ("checkpoint reader", "src/server/pdc_server.c PDC_Server_restart"),
   ("checkpoint at close", "src/server/pdc_server.c PDC_Server_set_close")],
  "crash-point model checking of the real servers in a deterministic simulator with a virtual file system, all crash points of all short histories",
  "Process crash, not power loss: a completed write is durable in the virtual file system." + SIMNOTE)

P("C14", "A handle names one live thing until closed; other handles are refused",
  "Every handle that a create or open call returns (property list, container, object, region, transfer) differs from every other handle and "
  "describes the thing it was made for until it is closed, whatever else is created, opened, duplicated or closed. Iterators visit every live container, and "
  "every object created in a container, exactly once. A handle that was closed or never issued makes any call that takes it "
  "fail with an error, with no other effect: nothing crashes and all valid handles keep working.",
  "histories inputs",
  "all sequences of create, open, duplicate and close over six kinds of handles up to the depth bound, audited against a model of the live handles; 58 "
  "API functions, each with five kinds of invalid handle",
  "A test uses valid handles in one order; stale handles and iteration order only matter in other histories.",
  "src/utils/pdc_interface.c src/api/pdc_obj/pdc_obj.c src/api/pdc_obj/pdc_cont.c src/api/pdc_obj/pdc_prop.c src/api/pdc_region/pdc_region.c src/api/pdc_region/pdc_region_transfer.c",
  [("ID tables", "src/utils/pdc_interface.c PDC_id_register, PDC_find_id, PDC_dec_ref"),
   ("iterators", "src/api/pdc_obj/pdc_obj.c PDCobj_iter_start, PDCobj_iter_next; src/api/pdc_obj/pdc_cont.c PDCcont_iter_next")],
  SIMTECH + "all operation sequences against a model of the live handles",
  "A handle of another kind than the call expects is not covered." + SIMNOTE)

P("C15", "A property list holds what was set on it, and copies are independent",
  "A property list returns for each attribute (dimensions, type, partition, consistency, user, time step, application, location, tags) the value set "
  "last, or its default. A duplicate starts with the attributes of the original (but not its buffer and location), and from then on setting or closing one does not "
  "affect the other. An object created from a property list has the attributes the list had then, whatever happens to the list later.",
  "histories inputs",
  "all sequences of 19 setter calls, create, duplicate, close and object create up to the depth bound on up to two property lists",
  "Tests set each attribute once; leftovers of earlier values and shared buffers show only in sequences.",
  "src/api/pdc_obj/pdc_prop.c src/api/pdc_obj/pdc_obj.c",
  [("property lists", "src/api/pdc_obj/pdc_prop.c PDCprop_create, PDCprop_obj_dup, PDC_obj_prop_get_info"),
   ("setters and object creation", "src/api/pdc_obj/pdc_obj.c PDCprop_set_obj_dims, PDC_obj_create")],
  SIMTECH + "all operation sequences against a reference model", SIMNOTE.strip())

P("C16", "Collective calls give every client what the individual call gives",
  "When all clients create or open an object or container together, either all succeed, and the handle of each client names the one object that now exists "
  "on the servers, with the attributes it was created with, or all fail: creating an object that exists, by whichever root, and opening one that does not exist. "
  "Every client can transfer regions of, tag, open and delete an object created together, like one created by a client alone. A collective tag query and a collective index search "
  "give every client exactly the complete result of the individual query, each object once, and fail on all clients if they fail on one.",
  "histories configurations",
  "all sequences of collective and individual creations, deletions and tag updates up to the depth bound, for 1-3 clients, every root and 1-5 servers, each step followed by "
  "collective opens of every name and tag queries by all clients; region transfers of objects created together; collective searches with every pattern of the vocabulary",
  "No test that runs here has more than one client; failures of a collective show only when some clients leave it early or get only a part of the result.",
  "src/api/pdc_obj/pdc_mpi.c src/api/pdc_obj/pdc_obj.c src/api/pdc_obj/pdc_cont.c src/api/pdc_client_connect.c",
  [("collective create", "src/api/pdc_obj/pdc_mpi.c PDCobj_create_mpi; src/api/pdc_obj/pdc_cont.c PDCcont_create_col"),
   ("collective open", "src/api/pdc_client_connect.c PDC_Client_query_metadata_name_timestep_agg, PDC_Client_query_container_name_col"),
   ("collective queries", "src/api/pdc_client_connect.c PDC_Client_query_kvtag_mpi, PDC_Client_search_obj_ref_through_dart_mpi")],
  SIMTECH + "all operation histories by all clients together against a reference model",
  "The simulator has its own MPI, whose collectives deadlock (and are reported) when not all clients of the communicator take part." + SIMNOTE)

P("C13", "One client holds the lock of a region; released data reaches the object",
  "At any time at most one client holds the lock of a region of an object. A client that asks for a free lock gets it; one that asks for a lock held "
  "by another client is refused, or, if it chose to wait, gets it in its turn once it is released, and nobody waits for a lock that is free. Releasing a lock nobody holds "
  "fails. Releasing a write-locked mapped region stores the mapped buffer in the object, and releasing a read-locked one fills the buffer with what is stored, "
  "also by transfers and by earlier sessions of other clients.",
  "histories schedules",
  "all sequences of try-lock, wait-for-lock and release by 2-3 clients on 1-2 regions, and of map, unmap, write session, read session and transfer by 1-2 clients on "
  "1-3 regions (1-D to 3-D), up to the depth bound, on 1-3 servers; and all schedules (1-3 deviations) of lockings, sessions and transfers by 2-3 clients at the same time",
  "A test locks from one client at a time; queues of waiters and sessions of several clients only occur in other histories.",
  "src/server/pdc_server_region/pdc_server_data.c src/api/pdc_region/pdc_region.c src/api/pdc_client_connect.c",
  [("lock table and queue", "src/server/pdc_server_region/pdc_server_data.c PDC_Data_Server_region_lock, PDC_Data_Server_region_release, grant_region_lock_request"),
   ("mapped regions", "src/server/pdc_server_region/pdc_server_data.c PDC_Data_Server_buf_map, PDC_Data_Server_buf_unmap; src/commons (buf_map_region_release_bulk_transfer_cb)")],
  SIMTECH + "all operation sequences against a model of the owners, the queues and the content",
  "The lock is per region, so overlapping regions that are not the same do not exclude each other; each region is mapped by one client at a time, as the server keeps one mapping "
  "per region; transfers are mixed with mapped sessions for objects kept on one server." + SIMNOTE)

P("C17", "pdc_ls reports exactly what the checkpoints of the servers hold",
  "After the servers have been closed, pdc_ls on their checkpoint directory (with or without a final slash), on the directory of one server or on one file lists every object that "
  "existed, under its container, once, and no other, with the ID, name, application, user, tags, type, dimensions and time step it had; its regions cover exactly "
  "what was written to it. -n and -i keep the objects whose name or ID matches, -ln, -li and -s add all names, all IDs and the numbers of containers, objects and regions, "
  "-json writes valid JSON to the file. Unfinished checkpoints and other files in the directory do not matter.",
  "histories inputs configurations",
  "all sequences of create, delete, write, tag of object and tag of container up to the depth bound on 2-3 objects (1-D, 2-D and beyond 32 bits) in two containers, on 1-5 "
  "servers and for each way of partitioning; on what each of them leaves, 10 to 20 calls of the tool",
  "No test runs the tool; its input depends on which server holds the container, the metadata and the data of each object.",
  "src/tools/pdc_ls.c src/server/pdc_server.c src/tools/cjson/cJSON.c",
  [("tool", "src/tools/pdc_ls.c pdc_ls, main"), ("checkpoint writer", "src/server/pdc_server.c PDC_Server_checkpoint")],
  SIMTECH + "all operation histories, followed by the real tool on the files the real servers wrote, its JSON against a reference model",
  "The tool is compiled into the client and runs on the simulated file system. pdc_import and pdc_export need HDF5, which is not installed." + SIMNOTE)

P("C18", "The library's collections behave as the sequences, sets and maps they stand for",
  "After any sequence of operations a deque yields at either end what a sequence would (NULL when it is empty), however often it grew, shrank or was emptied; a vector holds the items "
  "added, in order, for every initial capacity and expansion factor of 1 or more, and its iterator yields each once; a set holds each inserted and not removed value once, its count, array and iterator agree "
  "with it, and union and intersection hold exactly the elements of either or of both; a hash table maps each key to the value last stored, "
  "and frees keys and values exactly once. Comparison functions order, and hash functions agree on equal values. None touches memory that is not its own.",
  "histories inputs",
  "all operation sequences up to the depth bound from fills below, at and above every change of capacity; all pairs of subsets of 6-8 elements with colliding hashes; all pairs of words up to 3-4 letters",
  "The mistakes of such code appear at one fill or after one order of operations (full, wrapped around, emptied, just grown), which examples rarely meet.",
  "src/commons/collections/pdc_deque.c src/commons/collections/pdc_vector.c src/commons/collections/pdc_set.c src/commons/collections/pdc_hash_table.c src/commons/collections/pdc_compare.c src/commons/collections/pdc_hash.c",
  [("deque and vector", "src/commons/collections/pdc_deque.c; src/commons/collections/pdc_vector.c"), ("set and hash table", "src/commons/collections/pdc_set.c; src/commons/collections/pdc_hash_table.c")],
  "exhaustive enumeration of all operation sequences of the compiled collections up to a depth, from every interesting fill, against an array model after each step (explicit-state exploration of the implementation, AddressSanitizer)",
  "pdc_stack.c is left out, as its functions have other names than those its header declares.")

P("C19", "Tags kept as text are found, and generated queries match their own tag",
  "In a list of tags written key=value and separated by commas, looking for a key pattern and a value pattern (exact, prefix*, *suffix, *infix*) yields the first tag that matches both and nothing else; has_tag, "
  "is_value_match and is_value_in_range agree with it. A tag is split at its first = into its key and its value. A query generated for a tag (of any kind and affix length) "
  "has the key and value pattern asked for, matches that tag, and taking the query string apart yields both patterns again. The string functions below return what their names say, "
  "and none reads or writes outside its arguments.",
  "inputs",
  "all lists of up to 3-4 tags over 4 keys and 6 values with 7 key patterns, 8 value patterns and 6 ranges; all names and values of 3-4 letters over two letters with every query type and affix length; "
  "all strings up to 6-9 letters with every pair of bounds",
  "The existing test asks for three strings; off-by-one errors at the ends of keys, values and affixes show for particular lengths.",
  "src/commons/utils/query_utils.c src/commons/utils/string_utils.c",
  [("matching", "src/commons/utils/query_utils.c k_v_matches_p, is_value_in_range"), ("generation", "src/commons/utils/query_utils.c gen_query_key_value, gen_query_str"), ("strings", "src/commons/utils/string_utils.c")],
  "exhaustive enumeration of all tag lists, patterns and generated queries up to a length, run through the compiled functions in sequence (generate, join, split, match) against a brute-force reference, with AddressSanitizer",
  "Ranges are compared where a single tag matches the key pattern, as the code looks at the first one only; names shorter than three letters are replaced by gen_query_key_value and not covered.")

P("C20", "A thread pool runs every job once, and waiting waits for all of them",
  "Every job added to a thread pool, by any thread and also from within a job, is run exactly once with its own argument, in order if there is one thread, and never more jobs at once than the pool has threads. thpool_wait "
  "returns, in every thread that calls it, once all jobs added before have finished, and not earlier. thpool_destroy returns with all threads gone and no job running or started later, and uses no memory that was freed. "
  "Pools do not affect each other.",
  "schedules histories",
  "all schedules with up to 2-3 deviations (preemption at every mutex and condition operation, at every test of a loop condition and inside jobs; every waiter a signal may wake; spurious wake-ups) of 1-3 worker threads, up to 3 jobs, "
  "two adding or waiting threads, two pools, and destruction with jobs pending",
  "Lost wake-ups and use after free need one particular interleaving of the workers with the waiting or destroying thread.",
  "src/commons/utils/thpool.c",
  [("pool", "src/commons/utils/thpool.c thpool_wait, thpool_destroy, thread_do"), ("queue and semaphore", "src/commons/utils/thpool.c jobqueue_pull, bsem_wait")],
  "stateless model checking of the real source under a controlled scheduler: exhaustive exploration of all schedules within a deviation bound, with AddressSanitizer",
  "Sequentially consistent memory; thpool_pause and thpool_resume (signals) are not explored; loop conditions become scheduling points by redefining `while` when the source is included.")

P("C21", "A histogram counts each value once, in the bin that holds it",
 "A histogram of an array of any of the supported numeric types, also of constant, tiny or far apart finite values and of any number of elements, has contiguous ascending bins, spans from the smallest to the largest value, "
 "and each bin counts exactly the values in it. Duplicates and copies are equal and independent. A merged histogram has the bins of its widest part, spans what its parts do, and counts as many "
 "values as they together, those of a part's bin in the bin that contains it; histograms of different types cannot be merged.",
 "inputs",
 "all pairs of bounds and up to 2-3 elements of 15 values over 6 types and 3-80 numbers of bins; sampled histograms of up to 64 elements of all starts, steps and shapes; all merges of up to 3 histograms",
 "The mistakes show for particular bounds only: constant data, bounds that are or are not multiples of the bin width, parts of different widths; nothing tests this code.",
 "src/api/pdc_analysis/pdc_hist_pkg.c",
 [("creation", "src/api/pdc_analysis/pdc_hist_pkg.c PDC_create_hist, PDC_gen_hist"), ("counting and merging", "src/api/pdc_analysis/pdc_hist_pkg.c PDC_hist_incr_all, PDC_merge_hist")],
 "exhaustive enumeration of all small arrays, bounds, numbers of bins and merges, run through the compiled functions against a linear scan, with AddressSanitizer",
 "Non-finite values are not covered; the open-ended first and last bins of parts may be counted in any bin they touch.")

P("C22", "Applications that run one after another on the same servers see one store",
  "Applications started one after another on running servers, with any number of processes each, work on one store: what an earlier application wrote, created, tagged, deleted or put into the index is there, and only that, for every later one, "
  "which may overwrite and delete it, also when the earlier one ended without closing its handles, and when the servers are then closed and restarted before yet another application. IDs handed out in a later application never name an existing object.",
  "histories schedules configurations",
  "all sequences of operations of 2-4 applications of 1-3 processes each, on running or restarted servers in all orders, for regions of 1-3 objects (all partitions, 1-D to 3-D), object properties, tags, containers, the index, and concurrent creates and deletes",
  "The servers keep per-client and per-object state beyond the application that caused it; no test runs two applications on the same servers with the store checked in between.",
  "src/server/pdc_server.c src/server/pdc_server_metadata.c src/server/pdc_server_region/pdc_server_region_cache.c src/api/pdc_client_connect.c",
  [("clients known to the server", "src/server/pdc_client_server_common.c client_test_connect, src/server/pdc_server.c PDC_Server_get_client_addr"), ("metadata", "src/server/pdc_server_metadata.c"), ("cached regions", "src/server/pdc_server_region/pdc_server_region_cache.c")],
  SIMTECH + "all histories over several client lifetimes on the same and on restarted servers", "Applications do not overlap in time." + SIMNOTE)

P("C23", "The filter in front of a long list of objects never denies one that is there",
  "A server skips searching a long list of objects of a name if its Bloom filter denies the object. The filter, started in any memory, denies no name that was added and not removed, whatever else was added or removed and also "
  "after it has grown; an empty filter denies every name; and one that holds no more names than it was made for admits few others. Objects of which many versions (time steps) exist are found, updated, deleted and protected from being created twice, also after a restart.",
  "inputs histories",
  "all sequences of up to 4-6 additions and removals of 4-5 names on filters of four capacities and three error rates, empty, nearly full, or grown; all histories of changes to objects with more than 64 versions",
  "A false denial shows for particular names and fill levels only; tests do not create enough objects of one name for the filter to be used.",
  "src/server/dablooms/pdc_dablooms.c src/server/dablooms/pdc_murmur.c src/server/pdc_server_metadata.c",
  [("counters", "src/server/dablooms/pdc_dablooms.c bitmap_increment, bitmap_decrement, hash_func"), ("growing", "src/server/dablooms/pdc_dablooms.c new_counting_bloom_from_scale, scaling_bloom_add"), ("use", "src/server/pdc_server_metadata.c find_identical_metadata, PDC_Server_hash_table_list_insert")],
  "exhaustive exploration of all operation sequences on the compiled filter with AddressSanitizer against a set, and of the servers that use it in the simulator", "Names are added once while present (what the servers do); more than 15 names that share a counter are not covered.")
