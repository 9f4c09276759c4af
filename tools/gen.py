#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'pkg/scsi/'
I = 'pkg/port/iscsit/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None, claim=True, na=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state or [], obs=obs or [], claim=claim, na=na, note=note))
SV = S + 'scsi.go:AddCommandQueue'
RD = I + 'iscsid.go:rxHandler'

p('C01', 'Medium I/O stays inside the addressed blocks and the medium',
  'A command that accesses the medium never reads, writes, syncs, verifies or unmaps a byte outside the blocks its CDB addresses, and never a byte beyond the end of the logical unit. A command whose address range is not wholly on the medium leaves the backing store untouched.',
  ['inputs', 'configurations'], 'every medium access opcode, every CDB, every device size, every data buffer length',
  'The functional suites issue a few in-range transfers and a handful of out-of-range ones; an overflow in the LBA or length arithmetic, or a data buffer that does not match the CDB, needs one particular 64-bit value.',
  [S+'sbc.go', S+'scsi.go', S+'backingstore.go'], [dict(name='range check and LBA/length decoding', where=S+'sbc.go:SBCReadWrite'), dict(name='dispatch to the backing store', where=S+'backingstore.go:bsPerformCommand')],
  obs=['calls made on the backing store'])
p('C02', 'A read returns what was last written',
  'For every sequence of commands on a logical unit, each block read holds exactly the bytes last written to it by a successful WRITE, WRITE AND VERIFY, ORWRITE or WRITE SAME, whichever CDB size was used. A refused command changes no block.',
  ['histories', 'inputs'], 'every sequence of medium commands with any LBA, length and data within the bounds',
  'Tests write and read back one pattern at one place; data integrity is a statement about all interleavings of command variants, overlapping ranges and data.',
  [S+'sbc.go', S+'backingstore.go'], [dict(name='data path', where=S+'backingstore.go:bsPerformCommand')], obs=['status and data-in of each command', 'contents of the medium'])
p('C03', 'A medium command succeeds exactly when its range and fields are valid',
  'A medium access command ends with GOOD status exactly when its blocks lie on the medium, its fields are supported and its data fits, and then it has moved exactly the addressed blocks. An address outside the medium is refused with CHECK CONDITION, ILLEGAL REQUEST, LBA OUT OF RANGE (or INVALID FIELD IN CDB if another field is wrong as well).',
  ['inputs', 'configurations'], 'every medium access opcode and CDB, device size and block size',
  'Boundaries (last LBA, count 0, 256 blocks for a 6-byte count of 0, wrap of LBA + length) are single points of a 2^96 space.',
  [S+'sbc.go', S+'scsi.go'], [dict(name='range check', where=S+'sbc.go:SBCReadWrite'), dict(name='VERIFY', where=S+'sbc.go:SBCVerify'), dict(name='SYNCHRONIZE CACHE', where=S+'sbc.go:SBCSyncCache')], obs=['status, sense data and residual'])
p('C04', 'No command crashes the target',
  'No CDB, whatever its bytes, with whatever data buffers and addressed to whatever LUN, makes the target crash or hang; each command gets exactly one status.',
  ['inputs'], 'all 16 CDB bytes, all LUN bytes, data buffers of any length within the bounds',
  'A crash needs one specific byte combination (a service action, a zero length, a short parameter list) that no test sends.',
  [S+'spc.go', S+'sbc.go', S+'cmd.go'], [dict(name='dispatch', where=SV)], obs=['the command returns with a status'])
p('C05', 'Unsupported commands and logical units are answered with the right sense',
  'A command the device does not implement ends with CHECK CONDITION, ILLEGAL REQUEST, INVALID COMMAND OPERATION CODE; any command but INQUIRY, REPORT LUNS and REQUEST SENSE to a LUN that does not exist ends with LOGICAL UNIT NOT SUPPORTED. Sense data accompanies CHECK CONDITION and only that, in well-formed fixed format.',
  ['inputs'], 'every opcode and CDB, every LUN',
  'Tests check the sense of a few unsupported opcodes; the property is about every opcode, every path to a status and every LUN.',
  [S+'scsi.go', S+'spc.go', S+'sbc.go'], [dict(name='sense data', where=S+'scsi.go:BuildSenseData'), dict(name='LUN lookup', where=SV)], obs=['status and sense data'])
p('C06', 'Every report of the capacity agrees with what can be accessed',
  'READ CAPACITY (10) and (16) and the MODE SENSE block descriptor report the same last LBA and block length (saturated to 32 bits where the field is), before and after a resize. A one-block access is accepted exactly up to the last LBA reported.',
  ['configurations', 'inputs', 'histories'], 'every device size and block size, resized any time',
  'The test device has one size; saturation at 2^32 blocks, sizes that are no multiple of the block size and resizes are never tried.',
  [S+'sbc.go', S+'scsi.go', S+'lun.go'], [dict(name='READ CAPACITY', where=S+'sbc.go:SBCReadCapacity'), dict(name='READ CAPACITY(16)', where=S+'sbc.go:SBCReadCapacity16'), dict(name='resize', where=S+'scsi.go:Resize')], obs=['parameter data'])
p('C07', 'INQUIRY data and VPD pages are well-formed and consistent',
  'The vital product data pages listed by page 00h are exactly those that can be read; each page carries its own code and exact length, and identification descriptors fill page 83h without a gap. The NAA designator differs between logical units and is the same over every path, and the thin provisioning pages agree with READ CAPACITY (16).',
  ['inputs', 'configurations'], 'every page code, allocation length, device id, target name and provisioning mode',
  'Tests check individual fields of one device with one allocation length.',
  [S+'spc.go'], [dict(name='INQUIRY', where=S+'spc.go:SPCInquiry'), dict(name='page 83h', where=S+'spc.go:InquiryPage0x83')], obs=['parameter data'])
p('C08', 'MODE SENSE reports a well-formed and consistent set of pages',
  'For every page code, subpage, page control and both CDB sizes, MODE SENSE returns a header with exact length, the block descriptor unless disabled, and the pages asked for, each with its own length; pages that do not exist and saved values are refused. The all-pages request returns exactly the pages that can be asked for one by one, with the same contents.',
  ['inputs'], 'every CDB of MODE SENSE(6) and MODE SENSE(10)',
  'Tests ask for the all-pages page and one or two others.',
  [S+'spc.go', S+'sbc.go'], [dict(name='MODE SENSE', where=S+'spc.go:SPCModeSense'), dict(name='device specific parameter', where=S+'sbc.go:SBCModeSense')], obs=['parameter data'])
p('C09', 'REPORT LUNS lists exactly the mapped LUNs and each command reaches its LUN',
  'REPORT LUNS returns, each once and correctly encoded, exactly the LUNs mapped to the target plus LUN 0. A command reaches the backing store of the LUN it addresses and no other.',
  ['configurations', 'inputs'], 'every set of up to three LUN numbers, every LUN field',
  'Tests use LUN 0 and one target; encoding of LUN numbers above 255 and several LUNs are not tried.',
  [S+'spc.go', S+'scsilumap.go', S+'scsi.go'], [dict(name='REPORT LUNS', where=S+'spc.go:SPCReportLuns'), dict(name='mapping', where=S+'scsilumap.go:AddLUNMapping')], obs=['parameter data', 'calls made on each backing store'])
p('C10', 'Parameter data is cut off at the allocation length and otherwise unchanged',
  'For every command that returns parameter data, the data returned under an allocation length is exactly the prefix, of that length, of what is returned when the length does not limit it, and nothing is written beyond that into the data-in buffer.',
  ['inputs'], 'every data-in command, every allocation length',
  'Off-by-one or missing truncation shows only for particular short allocation lengths, which differ per command.',
  [S+'spc.go', S+'sbc.go', S+'scsi.go'], [dict(name='data-in', where=S+'scsi.go:putDataIn')], obs=['data-in buffer and transfer length'])
p('C11', 'Persistent reservations follow the SPC rules',
  'For every sequence of PERSISTENT RESERVE OUT commands from any of several initiators, the registered keys, the generation counter and the reservation with its holder, as reported by PERSISTENT RESERVE IN, and each status are those the SPC rules give. A refused command changes nothing. (REGISTER AND MOVE is outside.)',
  ['histories', 'inputs'], 'sequences of service actions from three initiators with any keys, types and scopes',
  'The suites run scripted sequences with two initiators; preemption, all-registrants types and unregistering holders have too many interleavings to sample.',
  [S+'spc.go', S+'scsilumap.go'], [dict(name='PR OUT', where=S+'spc.go:SPCPRRegister'), dict(name='preemption', where=S+'spc.go:SPCPRPreempt'), dict(name='registrations', where=S+'scsilumap.go')], obs=['status', 'PERSISTENT RESERVE IN data'])
p('C12', 'RESERVE keeps other initiators out until RELEASE',
  'While one initiator holds a RESERVE reservation of a logical unit, medium access by any other initiator ends with RESERVATION CONFLICT and has no effect, and its own access is not affected. The reservation ends with RELEASE by its holder, loss of its nexus or a logical unit reset, and by nothing else; RELEASE by another initiator is GOOD and has no effect.',
  ['histories', 'inputs'], 'sequences of RESERVE, RELEASE, reset, nexus loss and access from three initiators',
  'No test reserves from two initiators.',
  [S+'cmd.go', S+'target.go', S+'sbc.go', S+'lun.go'], [dict(name='reservation', where=S+'target.go:deviceReserve'), dict(name='enforcement', where=S+'lun.go:luPerformCommand')], obs=['status', 'calls made on the backing store'])
p('C13', 'A write-protected logical unit is never modified',
  'On a read-only logical unit no command changes the medium; commands that would write end with DATA PROTECT, WRITE PROTECTED. MODE SENSE reports write protection exactly when it is set, and reads are not affected.',
  ['inputs', 'configurations'], 'every opcode and CDB on a write-protected unit',
  'No test has a write-protected unit.',
  [S+'sbc.go', S+'backingstore.go'], [dict(name='write protection', where=S+'sbc.go:SBCReadWrite')], obs=['calls made on the backing store', 'sense data'])
p('C14', 'UNMAP deallocates exactly the listed extents',
  'UNMAP hands exactly the extents in its parameter list, as far as the CDB and the list header say it goes, to the backing store; if any extent is not wholly on the medium the command is refused and nothing is deallocated. An empty list is not an error.',
  ['inputs'], 'every parameter list of up to three descriptors, every parameter list length and data length field',
  'Tests unmap one valid extent.',
  [S+'sbc.go'], [dict(name='UNMAP', where=S+'sbc.go:SBCUnmap')], obs=['calls made on the backing store', 'sense data'])
p('C15', 'A failing backing store is never reported as success',
  'If any access to the backing store that a command needs fails, the command ends with CHECK CONDITION and MEDIUM or HARDWARE ERROR, never GOOD; without a fault it does not. A write with FUA and SYNCHRONIZE CACHE end with GOOD only after a completed sync of the range, issued after the data was written.',
  ['fault_sequences', 'inputs'], 'every medium command, each of its backing store calls failing or not',
  'Tests never make the backing store fail.',
  [S+'backingstore.go', S+'sbc.go'], [dict(name='error handling', where=S+'backingstore.go:bsPerformCommand')], obs=['status and sense data', 'order of calls made on the backing store'])
p('C16', 'VERIFY compares all the data',
  'VERIFY with byte check succeeds exactly when every byte of the data sent equals the medium and the data covers the range, and otherwise ends with MISCOMPARE; it never changes the medium. WRITE AND VERIFY succeeds only if what is read back equals what was written.',
  ['inputs', 'fault_sequences'], 'all data and medium contents within the bounds, any single corrupted byte',
  'Tests miscompare at a chosen byte; the statement is about every byte position, including the last and those beyond a short buffer.',
  [S+'backingstore.go', S+'sbc.go'], [dict(name='compare', where=S+'backingstore.go:bsPerformCommand')], obs=['status and sense data'])
p('C17', 'Login and text parameters are parsed and encoded faithfully',
  'Parsing the text of a login or text request yields exactly the key=value items it holds, for every byte content, and text that the target encodes parses back to the same items. A malformed item never hides or alters another.',
  ['inputs'], 'every text of up to the bound, every list of keys and values',
  'Tests use well-formed text.',
  ['pkg/util/util.go'], [dict(name='parser', where='pkg/util/util.go:ParseKVText'), dict(name='encoder', where='pkg/util/util.go:MarshalKVText')], obs=['parsed keys and values'])
p('C18', 'Every header field is decoded from the right bytes',
  'For every 48-byte header the target acts on exactly the values that RFC 7143 puts in it: opcode, flags, lengths, LUN, task tag, sequence numbers, CDB, offsets. Additional header segments and padding are skipped, and data longer than the target announced ends the connection without being buffered.',
  ['inputs'], 'all 2^384 headers, per opcode',
  'The initiators used in tests set few of the fields and never the high bytes of lengths and numbers.',
  [I+'cmd.go', I+'conn.go', I+'iscsid.go'], [dict(name='header parser', where=I+'cmd.go:parseHeader'), dict(name='receive state machine', where=RD)], obs=['the command as the target acts on it'])
p('C19', 'Response PDUs are encoded as RFC 7143 lays them out',
  'Every PDU the target sends has the opcode, flags, lengths, tags, sequence numbers and status in the places of RFC 7143, a data segment padded to four bytes whose length field is exact, and the sense data with its length in front. A PDU decodes to the values the target put in.',
  ['inputs'], 'all field values of each response type, all data lengths within the bounds',
  'An initiator in the test suite ignores most fields, and lengths that need padding or three bytes are rare.',
  [I+'cmd.go'], [dict(name='encoder', where=I+'cmd.go:Bytes')], obs=['bytes sent'])
p('C20', 'Read data arrives complete, in order and within the negotiated sizes',
  'The Data-In PDUs of a command carry its data exactly once, in order, with consecutive DataSN and correct offsets, each no longer than the initiator accepts, and final and status bits on the last one. Residual count and overflow or underflow flags tell the difference between expected and actual length.',
  ['inputs', 'configurations'], 'all expected and actual lengths and negotiated sizes within the bounds',
  'Tests use one segment size and transfers that match it.',
  [I+'iscsid.go', I+'cmd.go'], [dict(name='Data-In', where=I+'iscsid.go'), dict(name='residuals', where=I+'iscsid.go:buildRespPackage')], obs=['bytes sent'])
p('C21', 'Write data is put together exactly as sent, or the command is not executed',
  'A write executes once, after all its data has arrived as immediate, unsolicited and solicited data, and with exactly those bytes in place. R2Ts ask for just the data still missing, in order, no more than MaxBurstLength at a time; data outside what was asked for never reaches the medium.',
  ['inputs', 'histories', 'configurations'], 'all split-ups of a transfer into PDUs and negotiated burst sizes within the bounds',
  'The initiator in the suites always sends the data in the same way.',
  [I+'iscsid.go', I+'session.go'], [dict(name='Data-Out', where=I+'iscsid.go'), dict(name='R2T', where=I+'cmd.go')], obs=['bytes sent', 'data of the command executed'])
p('C22', 'Commands execute once each, in CmdSN order, within the window',
  'Non-immediate commands are executed exactly once and in the order of CmdSN, whatever order they arrive in; commands outside the advertised window and duplicates are ignored. Immediate commands execute on arrival and use up no number; comparisons hold across the wrap of the 32-bit counter.',
  ['histories', 'inputs'], 'every order of arrival of up to four commands, from every starting CmdSN',
  'Test initiators send commands in order starting at small numbers.',
  [I+'iscsid.go', I+'session.go', I+'task.go'], [dict(name='command order', where=I+'iscsid.go:scsiCommandHandler')], obs=['order of execution', 'responses'])
p('C23', 'Sequence numbers in responses are consistent',
  'StatSN advances by one for each status-bearing response of a connection and starts from what the initiator expects; ExpCmdSN is the next command expected and MaxCmdSN never moves backwards or leaves the window closed. R2T and Data-In without status do not use up a StatSN.',
  ['histories', 'inputs'], 'every sequence of up to four requests of any kind, from every starting number',
  'Initiators in the suites do not check the counters, and wraps do not occur.',
  [I+'cmd.go', I+'iscsid.go', I+'conn.go'], [dict(name='StatSN', where=I+'iscsid.go')], obs=['bytes sent'])
p('C24', 'Nothing but login gets through before login is complete',
  'Until the login phase has ended no SCSI command, task management, text or data request is executed or answered with data; only the login stages of RFC 7143 lead to full feature phase and each login response names the stage the target really is in. A refused login gets the status of its reason and ends the connection.',
  ['histories', 'inputs'], 'every sequence of up to three PDUs with any login flags, stages and opcodes before full feature phase',
  'Test initiators log in in one standard way.',
  [I+'login.go', I+'iscsid.go', I+'conn.go'], [dict(name='login', where=I+'iscsid.go:iscsiExecLogin'), dict(name='connection state', where=I+'conn.go')], obs=['bytes sent', 'connection and session state'])
p('C25', 'Negotiated parameters follow the rules of RFC 7143 on both sides',
  'Each operational key that is offered is answered with the result its rule gives (minimum, maximum, AND, OR, list choice), declared keys are not answered, unknown keys are NotUnderstood and values out of range are refused. The session then works with exactly the values answered.',
  ['inputs'], 'every key with every numeric or boolean value; malformed values',
  'Test initiators offer their fixed defaults.',
  [I+'login.go', I+'session.go'], [dict(name='negotiation', where=I+'session.go')], obs=['login response text', 'session parameters'])
p('C26', 'A connection belongs to exactly the session it logged in to',
  'A login with TSIH 0 creates a session with a handle no other session has, or replaces the one with the same initiator, ISID and portal group; with a TSIH it joins that session only if it is the same initiator. When a session ends its handle, nexus and reservations are released, and no other session is affected.',
  ['histories', 'inputs'], 'sequences of up to three logins and disconnects with any ISID, TSIH, CID and name',
  'The suites have one or two sessions and no reinstatement.',
  [I+'session.go', I+'login.go', I+'conn.go', I+'iscsid.go'], [dict(name='binding', where=I+'session.go:BindISCSISession')], obs=['login responses', 'sessions and nexuses of the target'])
p('C27', 'Task management affects exactly the tasks it names',
  'ABORT TASK aborts the referenced task if it is still pending and no other, ABORT TASK SET and LOGICAL UNIT RESET those of the LUN; each is answered with the code of its outcome, an aborted task gets no response and changes nothing, and every other task completes. Unknown functions and LUNs are answered as such.',
  ['histories', 'inputs'], 'every task management function, referenced tag and LUN with up to three pending tasks',
  'The suites abort nothing while a task is pending.',
  [I+'iscsid.go', I+'task.go', S+'target.go'], [dict(name='task management', where=I+'iscsid.go:iscsiExecTask')], obs=['responses', 'commands executed'])
p('C28', 'Discovery tells exactly the targets and portals that exist',
  'SendTargets returns each target name once with exactly its portal addresses and group tags, restricted to the named target if one is given, and nothing outside a discovery session but the own target. If a cluster address is set it takes the place of the portals of each group. The answer parses back to the configuration.',
  ['inputs', 'configurations'], 'every set of up to three targets and portals, every SendTargets value',
  'Tests have a single target and portal.',
  [I+'iscsid.go', I+'iscsit.go'], [dict(name='SendTargets', where=I+'iscsid.go:iscsiExecText')], obs=['text response'])
p('C29', 'Session handles are unique whatever the schedule',
  'Handles handed out to sessions that exist at the same time are distinct, non-zero and not the reserved value, for every interleaving of allocation and release, and a handle is reusable after its release only.',
  ['schedules', 'histories'], 'sequences of allocations and releases and interleavings of two threads',
  'No test logs in concurrently; handle exhaustion needs 65534 sessions.',
  [I+'iscsit.go'], [dict(name='allocator', where=I+'iscsit.go:AllocTSIH')], obs=['handles'])
p('C30', 'The configuration is mapped to targets and LUNs as written',
  'Every LUN of every configured target serves the device with the id it names; a mapping of a device that does not exist, a LUN that is not a number, and a second device with the same id are refused, and change nothing; a portal group whose number is none from 0 to 65535, or which has a portal that does not exist, is refused. Mapping a LUN again replaces the mapping of just that LUN, removing a mapping removes just that one. A change while the target runs takes effect as a whole: a command at the same time finds the mapping before or after it.',
  ['configurations', 'histories'], 'sequences of up to four mappings and removals with any target, LUN and device id within the bounds',
  'Tests load one configuration.',
  [S+'scsilumap.go', S+'target.go', S+'lun.go'], [dict(name='mapping', where=S+'scsilumap.go')], obs=['devices of the target'])
p('C31', 'Backing stores read and write exactly the requested range',
  'A backing store returns exactly the requested bytes or an error, and a write that it acknowledges has been passed on completely at the requested offset, whatever short transfers and errors the layer below produces.',
  ['fault_sequences', 'inputs'], 'every offset and length within the bounds; short transfers and errors at any call',
  'Local files in tests never return short counts or errors.',
  [S+'backingstore/common.go', S+'backingstore/remote/remote.go'], [dict(name='file store', where=S+'backingstore/common.go'), dict(name='remote store', where=S+'backingstore/remote/remote.go')], obs=['calls made on the layer below'])
p('C32', 'Statistics count exactly the commands executed',
  'With statistics enabled, the read and write counts and byte totals of the driver grow by one and by the bytes transferred for each READ and WRITE (6), (10), (12) and (16) that is executed, and by nothing else, over all sessions; the counts per operation code grow by one for each SCSI command that is answered. (The bytes of a read which fails may be counted or not.)',
  ['histories', 'inputs'], 'every command and transfer length within the bounds',
  'No test looks at the statistics.',
  [I+'iscsid.go', I+'iscsit.go'], [dict(name='statistics', where=I+'iscsid.go')], obs=['statistics returned by the driver'])
p('C33', 'A persistent reservation keeps other initiators from the medium',
  'While a persistent reservation is held, medium access of a kind its type excludes, by a nexus it excludes, ends with RESERVATION CONFLICT and has no effect: writes under the write exclusive types, reads and writes under the exclusive access types, by everybody but the holder or, for the registrants-only and all-registrants types, by everybody not registered. Nobody else is affected, and nobody once the reservation has ended. A registration and a reservation belong to the initiator port and outlive its session: the same port (initiator name and ISID, target portal group) has them again when it logs in again, and no other.',
  ['histories', 'inputs'], 'every state of registrations and reservation of three nexuses, every medium command; logins with any ISID',
  'Tests of reservations look at PERSISTENT RESERVE IN; no test sends medium access from another nexus or logs in again.',
  [S+'lun.go', S+'sbc.go', S+'scsi_pr.go', I+'session.go'], [dict(name='conflicts by command', where=S+'sbc.go:NewSBCDevice'), dict(name='enforcement', where=S+'lun.go:luPerformCommand'), dict(name='identity of the nexus', where=I+'session.go:BindISCSISession')], obs=['status', 'calls made on the backing store'])

p('C34', 'A target that blocks multiple hosts serves one host at a time',
  'With blocking of multiple hosts enabled, a connection from another host than the one that is connected is closed without a word, for as long as that host has a connection, and further connections of that host are served. When its last connection has ended or logged out, any host can be the next. Otherwise hosts do not exclude each other, and no connection is ended by another host connecting or leaving.',
  ['histories', 'inputs'], 'sequences of connections from any hosts, and of their logins, logouts and ends',
  'Tests connect from one host.',
  [I+'iscsid.go'], [dict(name='check on accept', where=I+'iscsid.go:Run'), dict(name='end of a connection', where=I+'iscsid.go:closeConnection')], obs=['connections closed', 'answers to logins'])

p('C35', 'Commands at the same time act as if one ran after the other',
  'Commands of different initiators, or the loss of a nexus or a reset of the unit, which run at the same time on one logical unit answer and leave behind - reservations, registrations, the blocks of the medium - what they would in one order or the other. No two initiators are both told that they hold the unit, no registration or reservation is lost or appears from nowhere, and ORWRITE and WRITE AND VERIFY see no other write between their reading and writing. Sessions that log in, log out, are lost, discover, read and write at the same time do not disturb each other or the statistics, and nothing they share, the LUN map included, is used while it is being changed: the target goes on.',
  ['schedules', 'inputs'], 'every interleaving of two commands, or of what two sessions do',
  'Tests run one command at a time; the windows are a few instructions wide.',
  [S+'lun.go', S+'target.go', S+'scsi_pr.go', S+'spc.go', S+'backingstore.go'], [dict(name='checks and changes of reservations', where=S+'lun.go:luPerformCommand'), dict(name='end of a nexus', where=S+'target.go:loseITNexus'), dict(name='read-modify-write', where=S+'backingstore.go:bsPerformCommand')], obs=['status', 'sense data', 'what PERSISTENT RESERVE IN and READ tell afterwards'])

p('C36', 'What was said to be on stable storage survives a crash',
  'When a write with FUA or a SYNCHRONIZE CACHE of a range has ended with GOOD status, every block of it holds after a crash at any later point what was written before, or what a later command was to write there. The sync of a file store reaches the file it writes to, that of a remote store the remote end, and is over before the status is given.',
  ['crash_points', 'histories', 'inputs'], 'every crash point in sequences of up to three medium commands with any flags, range and data',
  'Tests do not stop the target between a command and the next; a backing file in the page cache never loses anything.',
  [S+'backingstore.go', S+'sbc.go', S+'backingstore/common.go', S+'backingstore/remote/remote.go'], [dict(name='FUA and SYNCHRONIZE CACHE', where=S+'backingstore.go:bsPerformCommand'), dict(name='sync of a file', where=S+'backingstore/common.go:DataSync')], obs=['status', 'calls made on the layer below, what it has on stable storage'])

p('C37', 'What is reported as supported is supported, and nothing is left out',
  'REPORT SUPPORTED OPERATION CODES lists each operation code and service action the logical unit carries out exactly once, with the length of its CDB and, if asked for, a timeouts descriptor, and no other. A command that is listed is not answered with INVALID COMMAND OPERATION CODE, one that is not listed is never carried out.',
  ['inputs', 'configurations'], 'every operation code and service action, every allocation length and option',
  'No test sends the command.',
  [S+'spc.go', S+'sbc.go'], [dict(name='the list', where=S+'spc.go:reportOpcodesAll'), dict(name='the operations', where=S+'sbc.go:NewSBCDevice')], obs=['parameter data', 'status and sense data of each operation code'])

p('C38', 'A logical unit that is offline says so and gives no access to its medium',
  'While a logical unit is configured offline, or the medium of a removable one has been ejected and not loaded again, TEST UNIT READY does not end with GOOD status, and every command that reads, writes, syncs, discards or sizes the medium ends with NOT READY sense and does not touch the backing store, whether the unit is removable or not. INQUIRY, with a qualifier that says that no device is connected, and REPORT LUNS still work. While it is online, TEST UNIT READY is GOOD and the commands of the medium are carried out.',
  ['configurations', 'inputs'], 'every medium command with any address and length, online and offline; histories of START STOP UNIT commands from several initiators',
  'No test configures a unit that is offline.',
  [S+'sbc.go', S+'spc.go', S+'lun.go'], [dict(name='medium commands', where=S+'sbc.go:SBCReadWrite'), dict(name='TEST UNIT READY', where=S+'spc.go:SPCTestUnit')], obs=['status', 'sense data', 'calls on the backing store'])

p('C39', 'The list of targets tells the targets and their sessions, and stays as taken',
  'The list of targets which the management interface takes has every configured target exactly once, each with its own identifier and with one nexus for each session there is with it, and none for sessions that are over. A list which was taken stays as it is while initiators log in and out, and taking or reading it at the same time as they do is safe.',
  ['histories', 'schedules'], 'histories of up to four logins, logouts and losses with two targets; every interleaving of the list with one of them',
  'No test asks for the list; the concurrent map access which brings the daemon down needs a login while the list is encoded.',
  [S+'scsi.go', S+'target.go'], [dict(name='the list', where=S+'scsi.go:GetTargetList'), dict(name='sessions', where=S+'target.go:AddITNexus')], obs=['the targets listed and their nexuses', 'races'])

def harness_props():
    have = set()
    for d, _, fs in os.walk(os.path.join(V, 'harness')):
        for f in fs:
            if f.startswith('zz_verif_'):
                for m in re.finditer(r'//zz:prop (.*)', open(os.path.join(d, f)).read()):
                    have |= set(x.strip() for x in m.group(1).split(','))
    return have

NOTE = json.load(open(os.path.join(V, 'tools', 'notes.json')))
NA = NOTE.get('not_applicable', {})
have = harness_props()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'],
            quantifier=dict(over=q['over'], text=q['text']), why_tests_cant=q['why'],
            anchors=dict(files=q['files'], state=q['state'], mechanism=q['mech'], observe_at=q['obs'], hook_needed=None))) + '\n')
checks, na = [], []
for q in P:
    i = q['id']
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd='bash /verif/check.sh -prop %s -tier quick' % i,
            thorough_cmd='bash /verif/check.sh -prop %s -tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the Go SSA form of the real code, assertions decided by an SMT solver (z3), counterexamples replayed natively',
            level='model_checking',
            level_note=NOTE.get('level', {}).get(i, 'bounded: holds for all values within the bounds stated in the evidence file')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='bash /verif/setup.sh', hooks=dict(guard='verif', enable='no hooks are needed: harnesses are added through go build overlays', source_commits=[]),
         checks=checks, not_applicable=na, notes=NOTE.get('notes', ''))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
import subprocess
subprocess.check_call(['python3', os.path.join(V, 'tools', 'mkdesign.py')])
