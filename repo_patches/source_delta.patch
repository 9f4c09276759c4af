From 8c87f4cf2939d9d70ff586ffaf86f4efaa6c8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 01/49] fix: a command without a data buffer crashes the target

WRITE sent without data, READ sent as a write and the PERSISTENT RESERVE OUT
service actions dereference a data buffer which is nil.
---
 pkg/scsi/scsi.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 18f196f..059d8c0 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -97,6 +97,13 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		}
 	}
 	scmd.ITNexus = itn
+	// a command may come without one of its data buffers
+	if scmd.InSDBBuffer == nil {
+		scmd.InSDBBuffer = &api.SCSIDataBuffer{}
+	}
+	if scmd.OutSDBBuffer == nil {
+		scmd.OutSDBBuffer = &api.SCSIDataBuffer{}
+	}
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
 	scmd.Device = target.Devices[lun]
 
-- 
2.43.0


From 25d9104f198684091fb2d07b3c7fba4b0ec03f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 02/49] fix: CDB length field is looked up by the size of the
 CDB, not by its group

The switch compared the command group (0..7) with the CDB sizes, so every
PERSISTENT RESERVE OUT was refused for its parameter list length and every
READ RESERVATION for its allocation length. The truncation of sense data to
that length goes: autosense is not subject to the allocation length. The
descriptor format gets the 8 bytes it announces.
---
 pkg/scsi/cmd.go  | 12 ++++++------
 pkg/scsi/scsi.go | 12 +++---------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/pkg/scsi/cmd.go b/pkg/scsi/cmd.go
index 4bb80c4..fe40193 100644
--- a/pkg/scsi/cmd.go
+++ b/pkg/scsi/cmd.go
@@ -250,20 +250,20 @@ func SCSICDBBufXLength(scb []byte) (int64, bool) {
 	group = SCSICDBGroupID(opcode)
 
 	switch group {
-	case CDB_GROUPID_0:
+	case 0: // 6-byte commands
 		length = int64(scb[4])
-	case CDB_GROUPID_2:
+	case 1, 2: // 10-byte commands
 		length = int64(util.GetUnalignedUint16(scb[7:9]))
-	case CDB_GROUPID_3:
+	case 3:
 		if opcode == 0x7F {
 			length = int64(scb[7])
 		} else {
 			ok = false
 		}
-	case CDB_GROUPID_4:
-		length = int64(util.GetUnalignedUint32(scb[6:10]))
-	case CDB_GROUPID_5:
+	case 4: // 16-byte commands
 		length = int64(util.GetUnalignedUint32(scb[10:14]))
+	case 5: // 12-byte commands
+		length = int64(util.GetUnalignedUint32(scb[6:10]))
 	default:
 		ok = false
 	}
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 059d8c0..134ae9a 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -158,7 +158,6 @@ func NewSCSIDeviceOperation(fn api.CommandFunc, sa []*SCSIServiceAction, pr uint
 // BuildSenseData build sense data
 func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 	senseBuffer := &bytes.Buffer{}
-	inBufLen, ok := SCSICDBBufXLength(cmd.SCB)
 	var (
 		length      uint32 = 0xa
 		fixedFormat bool   = true
@@ -177,6 +176,9 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		senseBuffer.WriteByte(key)
 		senseBuffer.WriteByte(byte(asc>>8) & 0xff)
 		senseBuffer.WriteByte(byte(asc) & 0xff)
+		for i := 0; i < 4; i++ {
+			senseBuffer.WriteByte(0x00)
+		}
 		length = 8
 	} else {
 		// fixed format
@@ -198,14 +200,6 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		}
 		length += 8
 	}
-	if ok {
-		if int64(length) > inBufLen {
-			log.Warnf("sense buffer is bigger than in buffer")
-			senseBuffer.Truncate(int(inBufLen))
-		}
-	} else {
-		log.Debugf("cannot calc cbd alloc length. truncate failed")
-	}
 	cmd.Result = key
 	cmd.SenseBuffer = &api.SenseBuffer{senseBuffer.Bytes(), length}
 }
-- 
2.43.0


From 51b3510d200028814497359543a9c6eb63c9123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 03/49] fix: the byte length of a transfer overflows 32 bits

0x800000 blocks of 512 bytes are 4 GiB: the length wrapped to 0 and the
command was acknowledged without touching the blocks it names.
---
 pkg/api/types.go | 4 ++--
 pkg/scsi/sbc.go  | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/api/types.go b/pkg/api/types.go
index 591f1f0..c3abe3a 100644
--- a/pkg/api/types.go
+++ b/pkg/api/types.go
@@ -178,7 +178,7 @@ type SCSICommand struct {
 	// Command ITN ID
 	ITNexusID     uuid.UUID
 	Offset        uint64
-	TL            uint32
+	TL            uint64
 	SCB           []byte
 	SCBLength     int
 	Lun           [8]uint8
@@ -409,7 +409,7 @@ type LUNMap map[uint64]*SCSILu
 
 type UnmapBlockDescriptor struct {
 	Offset uint64
-	TL     uint32
+	TL     uint64
 }
 
 type ReaderWriterAt interface {
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ec3a4a8..d8383b2 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -318,7 +318,7 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
-			TL:     num << cmd.Device.BlockShift,
+			TL:     uint64(num) << cmd.Device.BlockShift,
 		})
 	}
 
@@ -440,7 +440,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 
 	// Handle residuals
 	switch opcode {
@@ -604,7 +604,7 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
 		goto sense
@@ -728,7 +728,7 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	dev := cmd.Device
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 
 	err, key, asc := bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
-- 
2.43.0


From 85c552d232e9be41b7e65d74142b2f191319461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 04/49] fix: errors of the backing store are lost

A failing read, cache synchronisation or prefetch left the switch with break
and was acknowledged with GOOD; what did arrive at the caller was reported as
BUSY, a status which carries no sense data, instead of CHECK CONDITION.
---
 pkg/scsi/backingstore.go | 8 ++++----
 pkg/scsi/sbc.go          | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 9890695..c21ce05 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -73,7 +73,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
 		if cmd.OutSDBBuffer != nil {
@@ -92,9 +92,8 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err = bs.DataSync(int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
-		break
 	case api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
 		doVerify = true
 		fallthrough
@@ -114,7 +113,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		length = len(rbuf)
 		for i := 0; i < int(tl)-length; i++ {
@@ -136,6 +135,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
+			goto sense
 		}
 	case api.VERIFY_10, api.VERIFY_12, api.VERIFY_16:
 		// For stupid client which does not set WRITE flag
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index d8383b2..db34224 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -469,7 +469,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	if err != nil {
 		log.Errorf("Error from backend: %v", err)
 		BuildSenseData(cmd, key, asc)
-		return api.SAMStatBusy
+		return api.SAMStatCheckCondition
 	} else {
 		return api.SAMStatGood
 	}
-- 
2.43.0


From 487f740c8d8cc6c482e6a82e62e40b47838b1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 05/49] fix: writes go beyond the addressed blocks

A write wrote everything the initiator had sent, also past the blocks of its
CDB and past the end of the medium. ORWRITE overwrote the medium instead of
merging with it, and reads and verifications of any length were read into
memory before the buffer was looked at.
---
 pkg/scsi/backingstore.go | 43 ++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index c21ce05..4b3aa4a 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -64,20 +64,29 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		tl         int64 = int64(cmd.TL)
 	)
 
+	// For stupid client which does not set WRITE flag
+	if cmd.OutSDBBuffer != nil {
+		wbuf = cmd.OutSDBBuffer.Buffer
+		// the initiator may send more than the command transfers
+		if int64(len(wbuf)) > tl {
+			wbuf = wbuf[:tl]
+		}
+	}
+
 	key = HARDWARE_ERROR
 	asc = ASC_INTERNAL_TGT_FAILURE
 	switch opcode {
 	case api.ORWRITE_16:
 		tmpbuf := []byte{}
-		tmpbuf, err = bs.Read(int64(offset), tl)
+		tmpbuf, err = bs.Read(int64(offset), int64(len(wbuf)))
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
 			goto sense
 		}
-		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
+		wbuf = append([]byte{}, wbuf...)
+		for i := 0; i < len(tmpbuf) && i < len(wbuf); i++ {
+			wbuf[i] |= tmpbuf[i]
 		}
 		doWrite = true
 		goto write
@@ -98,17 +107,17 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		doVerify = true
 		fallthrough
 	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16:
-		// For stupid client which does not set WRITE flag
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
-		}
 		doWrite = true
 		goto write
 	case api.WRITE_SAME, api.WRITE_SAME_16:
 		// TODO
 		break
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
-		rbuf = make([]byte, int(tl))
+		if uint64(cmd.InSDBBuffer.Length) < uint64(tl) {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
 		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
@@ -123,12 +132,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if (opcode != api.READ_6) && (scb[1]&0x10 != 0) {
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
 		}
-		cmd.InSDBBuffer.Resid = uint32(length)
-		if cmd.InSDBBuffer.Length < uint32(length) {
-			key = ILLEGAL_REQUEST
-			asc = ASC_INVALID_FIELD_IN_CDB
-			goto sense
-		}
+		cmd.InSDBBuffer.Resid = uint32(len(rbuf))
 		copy(cmd.InSDBBuffer.Buffer, rbuf)
 	case api.PRE_FETCH_10, api.PRE_FETCH_16:
 		err = bs.DataAdvise(int64(offset), tl, util.POSIX_FADV_WILLNEED)
@@ -138,10 +142,6 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			goto sense
 		}
 	case api.VERIFY_10, api.VERIFY_12, api.VERIFY_16:
-		// For stupid client which does not set WRITE flag
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
-		}
 		doVerify = true
 		goto verify
 	default:
@@ -183,14 +183,13 @@ write:
 	}
 verify:
 	if doVerify {
-		rbuf = make([]byte, int(tl))
-		rbuf, err = bs.Read(int64(offset), tl)
+		rbuf, err = bs.Read(int64(offset), int64(len(wbuf)))
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
 			goto sense
 		}
-		if !bytes.Equal(wbuf, rbuf) {
+		if int64(len(wbuf)) != tl || !bytes.Equal(wbuf, rbuf) {
 			err = fmt.Errorf("verify fail between out buffer[length=%d] and read buffer[length=%d]", len(wbuf), len(rbuf))
 			key = MISCOMPARE
 			asc = ASC_MISCOMPARE_DURING_VERIFY_OPERATION
-- 
2.43.0


From dc831f80b0000cf9ccfcbd0ee48798545b8c416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 06/49] fix: VERIFY and SYNCHRONIZE CACHE do not check their
 range

VERIFY without a byte check and SYNCHRONIZE CACHE accepted blocks beyond the
end of the medium; the latter synchronised a negative range.
---
 pkg/scsi/sbc.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index db34224..b81851e 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -579,10 +579,6 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if scb[1]&0x02 == 0 {
-		// no data compare with the media
-		return api.SAMStatGood
-	}
 	lba = getSCSIReadWriteOffset(scb)
 	tl = getSCSIReadWriteCount(scb)
 
@@ -603,6 +599,11 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
+	if scb[1]&0x02 == 0 {
+		// no data compare with the media
+		return api.SAMStatGood
+	}
+
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = uint64(tl) << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
@@ -726,6 +727,13 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	lba := getSCSIReadWriteOffset(scb)
 	tl := getSCSIReadWriteCount(scb)
 	dev := cmd.Device
+	blocks := dev.Size >> dev.BlockShift
+
+	if lba+uint64(tl) < lba || lba+uint64(tl) > blocks || (tl == 0 && lba >= blocks) {
+		log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, blocks)
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+		return api.SAMStatCheckCondition
+	}
 
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = uint64(tl) << dev.BlockShift
-- 
2.43.0


From 55159c2b1b0a088eae4eaf90febfc61b26a4649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 07/49] fix: UNMAP does not check its range, the length of its
 list, or write protection

---
 pkg/scsi/sbc.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index b81851e..7e80e8a 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -310,12 +310,33 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatCheckCondition
 	}
 
+	if cmd.Device.Attrs.Readonly || cmd.Device.Attrs.SWP {
+		BuildSenseData(cmd, DATA_PROTECT, ASC_WRITE_PROTECT)
+		return api.SAMStatCheckCondition
+	}
+
 	const blockDescLen = 16
 
+	// the list is as long as the CDB and its own header say
+	buf := cmd.OutSDBBuffer.Buffer
+	if length := int(binary.BigEndian.Uint16(cmd.SCB[7:9])); length < len(buf) {
+		buf = buf[:length]
+	}
+	if len(buf) >= 8 {
+		if length := 8 + int(binary.BigEndian.Uint16(buf[2:4])); length < len(buf) {
+			buf = buf[:length]
+		}
+	}
+
 	var blockDescs []api.UnmapBlockDescriptor
-	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
-		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
-		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
+	blocks := cmd.Device.Size >> cmd.Device.BlockShift
+	for off := 8; off+blockDescLen <= len(buf); off += blockDescLen {
+		lba := binary.BigEndian.Uint64(buf[off : off+8])
+		num := binary.BigEndian.Uint32(buf[off+8 : off+12])
+		if lba+uint64(num) < lba || lba+uint64(num) > blocks {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+			return api.SAMStatCheckCondition
+		}
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
 			TL:     uint64(num) << cmd.Device.BlockShift,
-- 
2.43.0


From e45ba3d9b7a70845aa398b6628aa95de49acd4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 08/49] fix: WRITE SAME is acknowledged without writing
 anything

---
 pkg/scsi/backingstore.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 4b3aa4a..05847d8 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -110,8 +110,32 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		doWrite = true
 		goto write
 	case api.WRITE_SAME, api.WRITE_SAME_16:
-		// TODO
-		break
+		var (
+			blkLen = int64(1) << lu.BlockShift
+			// NDOB: there is no data, blocks of zeroes are meant
+			ndob = opcode == api.WRITE_SAME_16 && scb[1]&0x01 != 0
+			blk  = make([]byte, blkLen)
+		)
+		if tl == 0 {
+			tl = int64(lu.Size>>lu.BlockShift<<lu.BlockShift - offset)
+			wbuf = cmd.OutSDBBuffer.Buffer
+		}
+		// LBDATA and PBDATA are not supported
+		if scb[1]&0x06 != 0 || (!ndob && int64(len(wbuf)) < blkLen) {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
+		if !ndob {
+			copy(blk, wbuf)
+		}
+		for off := int64(0); off < tl; off += blkLen {
+			if err = bs.Write(blk, int64(offset)+off); err != nil {
+				key = MEDIUM_ERROR
+				asc = ASC_WRITE_ERROR
+				goto sense
+			}
+		}
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
 		if uint64(cmd.InSDBBuffer.Length) < uint64(tl) {
 			key = ILLEGAL_REQUEST
-- 
2.43.0


From e76843da3d1dc49eb20d44419c648b41968a893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 09/49] fix: parameter data is not cut off at the allocation
 length

---
 pkg/scsi/sbc.go  |  48 ++++++++--------
 pkg/scsi/scsi.go |  11 ++++
 pkg/scsi/spc.go  | 145 ++++++++++++++++++-----------------------------
 3 files changed, 90 insertions(+), 114 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 7e80e8a..4907e0e 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -242,10 +242,12 @@ func SBCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		deviceSpecific |= 0x80
 	}
 
+	pos := 3
 	if cmd.SCB[0] == 0x1a {
-		cmd.InSDBBuffer.Buffer[2] = deviceSpecific
-	} else {
-		cmd.InSDBBuffer.Buffer[3] = deviceSpecific
+		pos = 2
+	}
+	if uint32(pos) < cmd.InSDBBuffer.Resid && pos < len(cmd.InSDBBuffer.Buffer) {
+		cmd.InSDBBuffer.Buffer[pos] = deviceSpecific
 	}
 
 	return api.SAMStatGood
@@ -534,6 +536,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc    = ASC_LUN_NOT_SUPPORTED
 		bshift = cmd.Device.BlockShift
 		size   = cmd.Device.Size >> bshift
+		data   = make([]byte, 8)
 	)
 
 	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
@@ -547,21 +550,16 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if cmd.InSDBBuffer.Length < 8 {
-		goto overflow
-	}
-
 	// data[0] = (size >> 32) ? __cpu_to_be32(0xffffffff) : __cpu_to_be32(size - 1);
 	if size>>32 != 0 {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(0xffffffff)))
+		copy(data, util.MarshalUint32(uint32(0xffffffff)))
 	} else {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(size-1)))
+		copy(data, util.MarshalUint32(uint32(size-1)))
 	}
 
 	// data[1] = __cpu_to_be32(1U << bshift);
-	copy(cmd.InSDBBuffer.Buffer[4:], util.MarshalUint32(uint32(1<<bshift)))
-overflow:
-	cmd.InSDBBuffer.Resid = 8
+	copy(data[4:], util.MarshalUint32(uint32(1<<bshift)))
+	putDataIn(cmd, data, 8)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -650,20 +648,22 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 		bshift           = cmd.Device.BlockShift
 		size             = cmd.Device.Size >> bshift
 		allocationLength uint32
+		lbpme            int
+		data             = make([]byte, 32)
 	)
-	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint64(uint64(size-1)))
-	if allocationLength > 12 {
-		copy(cmd.InSDBBuffer.Buffer[8:], util.MarshalUint32(uint32(1<<bshift)))
-		if allocationLength > 16 {
-			var lbpme int
-			if cmd.Device.Attrs.ThinProvisioning {
-				lbpme = 1
-			}
-			val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
-			copy(cmd.InSDBBuffer.Buffer[12:], util.MarshalUint32(uint32(val)))
-		}
+	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
+		BuildSenseData(cmd, NOT_READY, ASC_MEDIUM_NOT_PRESENT)
+		return api.SAMStatCheckCondition
 	}
+	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
+	copy(data, util.MarshalUint64(uint64(size-1)))
+	copy(data[8:], util.MarshalUint32(uint32(1<<bshift)))
+	if cmd.Device.Attrs.ThinProvisioning {
+		lbpme = 1
+	}
+	val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
+	copy(data[12:], util.MarshalUint32(uint32(val)))
+	putDataIn(cmd, data, allocationLength)
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 134ae9a..1f8d0d2 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -155,6 +155,17 @@ func NewSCSIDeviceOperation(fn api.CommandFunc, sa []*SCSIServiceAction, pr uint
 	}
 }
 
+// putDataIn moves the parameter data of a command to its data-in buffer, no more
+// of it than the allocation length of the CDB allows. Resid tells how many bytes
+// the command has for the initiator.
+func putDataIn(cmd *api.SCSICommand, data []byte, allocationLength uint32) {
+	if uint64(len(data)) > uint64(allocationLength) {
+		data = data[:allocationLength]
+	}
+	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
+}
+
 // BuildSenseData build sense data
 func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 	senseBuffer := &bytes.Buffer{}
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6ed3ee4..fe2e6ac 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -165,7 +165,9 @@ func InquiryPage0x83(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	binary.Write(descBuf, binary.BigEndian, portID)
 
 	//DESCRIPTOR 5 SCSI Name,Port
-	portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
+	if targetPort != nil {
+		portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
+	}
 	descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_UTF8)
 	descBuf.WriteByte(0x80 | (ASS_TGT_PORT << 4) | DESG_SCSI)
 	descBuf.WriteByte(0x00)
@@ -317,12 +319,7 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 			goto sense
 		}
 		data = buf.Bytes()
-		if int(allocationLength) < len(data) {
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-		} else {
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
+		putDataIn(cmd, data, uint32(allocationLength))
 	} else {
 		if pcode != 0 {
 			goto sense
@@ -386,13 +383,7 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 
 		buf.Write(addBufData)
 		data = buf.Bytes()
-		if allocationLength < uint16(additionLength) {
-			cmd.InSDBBuffer.Resid = uint32(allocationLength)
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-		} else {
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
+		putDataIn(cmd, data, uint32(allocationLength))
 	}
 
 	return api.SAMStatGood
@@ -411,7 +402,6 @@ sense:
  */
 func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		remainLength     uint32
 		availLength      uint32 = 0
 		allocationLength uint32
 		buf              *bytes.Buffer = &bytes.Buffer{}
@@ -423,7 +413,6 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	remainLength = allocationLength
 	if _, ok := cmd.Target.Devices[0]; !ok {
 		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
 	} else {
@@ -432,7 +421,6 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	// LUN list length
 	buf.Write(util.MarshalUint32(availLength))
-	cmd.InSDBBuffer.Resid = allocationLength
 
 	// Skip through to byte 4, Reserved
 	for i := 0; i < 4; i++ {
@@ -442,24 +430,20 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	//For LUN0
 	if _, ok := cmd.Target.Devices[0]; !ok {
 		buf.Write(util.MarshalUint64(0))
-		remainLength -= 8
 	}
 
 	for lun := range cmd.Target.Devices {
-		if remainLength > 0 {
-			if lun > 0xff {
-				lun = (0x01 << 30) | (0x3fff&lun)<<16
-			} else {
-				lun = (0x3fff & lun) << 16
-			}
-			lun = uint64(lun << 32)
-
-			buf.Write(util.MarshalUint64(lun))
-			remainLength -= 8
+		if lun > 0xff {
+			lun = (0x01 << 30) | (0x3fff&lun)<<16
+		} else {
+			lun = (0x3fff & lun) << 16
 		}
+		lun = uint64(lun << 32)
+
+		buf.Write(util.MarshalUint64(lun))
 	}
 
-	copy(cmd.InSDBBuffer.Buffer, buf.Bytes())
+	putDataIn(cmd, buf.Bytes(), allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -543,6 +527,14 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 	return api.SAMStatGood
 }
 
+// changeableValues is the mask of what can be changed in a mode page,
+// as many bytes as the page has. It follows the page, where there is one.
+func changeableValues(pg *api.ModePage) []byte {
+	mask := make([]byte, pg.Size)
+	copy(mask, pg.Data[pg.Size:])
+	return mask
+}
+
 /*
  * SPCModeSense Implement SCSI MODE SENSE(6) and MODE SENSE(10) command
  * The MODE SENSE command requests the device server to return the specified medium,
@@ -565,7 +557,6 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc            = ASC_INVALID_FIELD_IN_CDB
 		data           []byte
 		allocLen       uint32
-		i              uint32
 	)
 
 	if dbd == 0 {
@@ -578,21 +569,18 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	if mode6 {
 		allocLen = uint32(scb[4])
 		// set header
-		for i = 0; i < 4 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 4)
 	} else {
 		allocLen = uint32(util.GetUnalignedUint16(scb[7:9]))
 		// set header
-		for i = 0; i < 8 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 8)
 	}
 	if dbd == 0 {
 		data = append(data, cmd.Device.ModeBlockDescriptor...)
 	}
 	if pcode == 0x3f {
-		for _, pg := range cmd.Device.ModePages {
+		for i := range cmd.Device.ModePages {
+			pg := &cmd.Device.ModePages[i]
 			if pg.SubPageCode == 0 {
 				data = append(data, pg.PageCode)
 				data = append(data, pg.Size)
@@ -603,7 +591,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 				data = append(data, pg.Size&0xff)
 			}
 			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
+				data = append(data, changeableValues(pg)...)
 			} else {
 				data = append(data, pg.Data[:pg.Size]...)
 			}
@@ -623,7 +611,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 			data = append(data, pg.PageCode)
 			data = append(data, pg.Size)
 			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
+				data = append(data, changeableValues(pg)...)
 			} else {
 				data = append(data, pg.Data[:pg.Size]...)
 			}
@@ -633,7 +621,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 			data = append(data, (pg.Size>>8)&0xff)
 			data = append(data, pg.Size&0xff)
 			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
+				data = append(data, changeableValues(pg)...)
 			} else {
 				data = append(data, pg.Data[:pg.Size]...)
 			}
@@ -648,10 +636,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		data[6] = uint8(blkDesctionLen >> 8)
 		data[7] = uint8(blkDesctionLen)
 	}
-	if rlen := uint32(len(data)); rlen > allocLen {
-		cmd.InSDBBuffer.Resid = allocLen
-	}
-	copy(cmd.InSDBBuffer.Buffer, data)
+	putDataIn(cmd, data, allocLen)
 	return api.SAMStatGood
 sense:
 	BuildSenseData(cmd, key, asc)
@@ -719,8 +704,8 @@ func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
 			}
 		}
 	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(len(data)-4)))
-	copy(cmd.InSDBBuffer.Buffer[4:], data[4:])
+	copy(data, util.MarshalUint32(uint32(len(data)-4)))
+	putDataIn(cmd, data, util.GetUnalignedUint32(cmd.SCB[6:10]))
 	return nil
 }
 
@@ -789,16 +774,19 @@ func SPCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 
 func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
+		data             []byte = []byte{}
 		addBuf           []byte = []byte{}
 		allocationLength uint16
 		additionLength   uint32
-		l                int = 0
 	)
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
 	PRGeneration, _ := scsiResOp.GetPRGeneration(tgtName, devUUID)
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
+
+	length, _ := SCSICDBBufXLength(cmd.SCB)
+	allocationLength = uint16(length)
 	if allocationLength < 8 {
 		goto sense
 	}
@@ -808,11 +796,11 @@ func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 	additionLength = uint32(len(addBuf))
 
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(PRGeneration))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(additionLength))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], addBuf)
+	data = append(data, util.MarshalUint32(PRGeneration)...)
+	data = append(data, util.MarshalUint32(additionLength)...)
+	data = append(data, addBuf...)
 
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	putDataIn(cmd, data, uint32(allocationLength))
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -856,6 +844,9 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 		//SCOPE and TYPE
 		scope_type := (curRes.Scope << 4) | curRes.Type
 		addBuf.WriteByte(scope_type)
+		//Obsolete
+		addBuf.WriteByte(0x00)
+		addBuf.WriteByte(0x00)
 		additionLength = uint32(0x10)
 	}
 
@@ -863,13 +854,7 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 	buf.Write(util.MarshalUint32(additionLength))
 	buf.Write(addBuf.Bytes())
 	data = buf.Bytes()
-	if allocationLength < uint16(additionLength) {
-		copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-	} else {
-		copy(cmd.InSDBBuffer.Buffer, data)
-	}
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	putDataIn(cmd, data, uint32(allocationLength))
 	return api.SAMStatGood
 
 sense:
@@ -882,35 +867,30 @@ sense:
 
 func SPCPRReportCapabilities(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		availLength  uint32 = 8
-		actualLength uint32 = 0
+		data = make([]byte, 8)
 	)
 	allocationLength := uint32(util.GetUnalignedUint16(cmd.SCB[7:9]))
 	if allocationLength < 8 {
 		goto sense
 	}
-	if cmd.InSDBBuffer.Length < allocationLength {
-		goto sense
-	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint16(uint16(8)))
+	copy(data, util.MarshalUint16(uint16(8)))
 	// Persistent Reservation Type Mask format
 	// Type Mask Valid (TMV)
-	cmd.InSDBBuffer.Buffer[3] |= 0x80
+	data[3] |= 0x80
 	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[4] |= 0x80
+	data[4] |= 0x80
 	// PR_TYPE_EXCLUSIVE_ACCESS_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x40
+	data[4] |= 0x40
 	// PR_TYPE_WRITE_EXCLUSIVE_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x20
+	data[4] |= 0x20
 	// PR_TYPE_EXCLUSIVE_ACCESS
-	cmd.InSDBBuffer.Buffer[4] |= 0x08
+	data[4] |= 0x08
 	// PR_TYPE_WRITE_EXCLUSIVE
-	cmd.InSDBBuffer.Buffer[4] |= 0x02
+	data[4] |= 0x02
 	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[5] |= 0x01
+	data[5] |= 0x01
 
-	actualLength = availLength
-	cmd.InSDBBuffer.Resid = uint32(actualLength)
+	putDataIn(cmd, data, allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -1404,26 +1384,11 @@ sense:
  * 6.39 - REQUEST SENSE
  */
 func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		allocationLength uint32
-		actualLength     uint32
-	)
-
-	allocationLength = util.GetUnalignedUint32(cmd.SCB[4:8])
-	if allocationLength > cmd.InSDBBuffer.Length {
-		allocationLength = cmd.InSDBBuffer.Length
-	}
 	BuildSenseData(cmd, NO_SENSE, NO_ADDITIONAL_SENSE)
-	if cmd.SenseBuffer.Length < allocationLength {
-		actualLength = cmd.SenseBuffer.Length
-	} else {
-		actualLength = allocationLength
-	}
-	copy(cmd.InSDBBuffer.Buffer, cmd.SenseBuffer.Buffer[:actualLength])
-	cmd.InSDBBuffer.Resid = uint32(actualLength)
+	putDataIn(cmd, cmd.SenseBuffer.Buffer, uint32(cmd.SCB[4]))
 
 	// reset sense buffer in cmnd
-	cmd.SenseBuffer = &api.SenseBuffer{}
+	cmd.SenseBuffer = nil
 
 	return api.SAMStatGood
 }
-- 
2.43.0


From 67cdf30a4b16b869456b85725f34befb8b39e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 10/49] fix: wrong sense for an unknown LUN or service action,
 crash on PREVENT ALLOW MEDIUM REMOVAL

---
 pkg/scsi/sbc.go  | 3 ++-
 pkg/scsi/scsi.go | 2 +-
 pkg/scsi/spc.go  | 4 +++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 4907e0e..4f042a8 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -730,7 +730,8 @@ func SBCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 	case api.SAI_GET_LBA_STATUS:
 		return SBCGetLbaStatus(host, cmd)
 	}
-	return api.SAMStatGood
+	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+	return api.SAMStatCheckCondition
 }
 
 /*
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 1f8d0d2..cfb8310 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -112,7 +112,7 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 	if scmd.Device == nil {
 		scmd.Device = target.LUN0
 		if lun != 0 {
-			BuildSenseData(scmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+			BuildSenseData(scmd, ILLEGAL_REQUEST, ASC_LUN_NOT_SUPPORTED)
 			scmd.Result = api.SAMStatCheckCondition.Stat
 			log.Warnf("%v", api.SAMStatCheckCondition.Err)
 			return nil
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index fe2e6ac..1403ec3 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -523,7 +523,9 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatReservationConflict
 	}
 	// PREVENT_MASK = 0x03
-	cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	if cmd.ITNexusLuInfo != nil {
+		cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	}
 	return api.SAMStatGood
 }
 
-- 
2.43.0


From 1ceb4e13c215a071fb96a5f92de89a855e7c920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 11/49] fix: RESERVE does not keep other initiators out,
 RELEASE releases nothing

---
 pkg/scsi/lun.go    |  8 ++++++++
 pkg/scsi/sbc.go    |  9 ++-------
 pkg/scsi/spc.go    |  4 ++--
 pkg/scsi/target.go | 42 ++++++++++++++++++++++--------------------
 4 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 244b24a..4e99ed8 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -91,6 +91,14 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 		// TODO host := cmd.ITNexus.Host
 		host := 0
 		cmd.State = api.SCSICommandProcessed
+		switch api.SCSICommandType(op) {
+		case api.INQUIRY, api.REPORT_LUNS, api.REQUEST_SENSE, api.RELEASE, api.READ_CAPACITY:
+			// served whoever holds the logical unit
+		default:
+			if err := deviceReserved(cmd); err != nil {
+				return api.SAMStatReservationConflict
+			}
+		}
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	return api.SAMStatGood
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 4f042a8..c2b1503 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -20,7 +20,6 @@ package scsi
 import (
 	"encoding/binary"
 	"fmt"
-	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -270,7 +269,7 @@ func SBCFormatUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc = ASC_INVALID_FIELD_IN_CDB
 	)
 
-	if err := deviceReserve(cmd); err != nil {
+	if err := deviceReserved(cmd); err != nil {
 		return api.SAMStatReservationConflict
 	}
 
@@ -510,11 +509,7 @@ func SBCReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SBCRelease(host int, cmd *api.SCSICommand) api.SAMStat {
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
-	if err := deviceRelease(cmd.Target.TID, cmd.ITNexusID, lun, false); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
+	deviceRelease(cmd.Device, cmd.ITNexusID, false)
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 1403ec3..26b176d 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -457,7 +457,7 @@ func SPCStartStop(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		pwrcnd, loej, start byte
 	)
-	if err := deviceReserve(cmd); err != nil {
+	if err := deviceReserved(cmd); err != nil {
 		return api.SAMStatReservationConflict
 	}
 
@@ -519,7 +519,7 @@ func SPCTestUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
-	if err := deviceReserve(cmd); err != nil {
+	if err := deviceReserved(cmd); err != nil {
 		return api.SAMStatReservationConflict
 	}
 	// PREVENT_MASK = 0x03
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 3f12696..8bad45d 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -18,7 +18,6 @@ package scsi
 
 import (
 	"fmt"
-	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
 	uuid "github.com/satori/go.uuid"
@@ -93,32 +92,35 @@ func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	target.ITNexusMutex.Lock()
 	defer target.ITNexusMutex.Unlock()
 	delete(target.ITNexus, itnexus.ID)
-}
-
-func deviceReserve(cmd *api.SCSICommand) error {
-	var lu *api.SCSILu
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
-
-	for tgtLUN, lunDev := range cmd.Target.Devices {
-		if tgtLUN == lun {
-			lu = lunDev
-			break
+	for _, lu := range target.Devices {
+		if lu != nil {
+			deviceRelease(lu, itnexus.ID, false)
 		}
 	}
-	if lu == nil {
-		log.Errorf("invalid target and lun %d %d", cmd.Target.TID, lun)
-		return nil
-	}
+}
 
-	if !uuid.Equal(lu.ReserveID, uuid.Nil) && uuid.Equal(lu.ReserveID, cmd.ITNexusID) {
-		log.Errorf("already reserved %d, %d", lu.ReserveID, cmd.ITNexusID)
+// deviceReserved tells whether another nexus than that of the command holds
+// the logical unit with a RESERVE command
+func deviceReserved(cmd *api.SCSICommand) error {
+	lu := cmd.Device
+	if !uuid.Equal(lu.ReserveID, uuid.Nil) && !uuid.Equal(lu.ReserveID, cmd.ITNexusID) {
+		log.Errorf("already reserved %s, %s", lu.ReserveID, cmd.ITNexusID)
 		return fmt.Errorf("already reserved")
 	}
-	lu.ReserveID = cmd.ITNexusID
 	return nil
 }
 
-func deviceRelease(tid int, itn uuid.UUID, lun uint64, force bool) error {
-	// TODO
+func deviceReserve(cmd *api.SCSICommand) error {
+	if err := deviceReserved(cmd); err != nil {
+		return err
+	}
+	cmd.Device.ReserveID = cmd.ITNexusID
 	return nil
 }
+
+// deviceRelease ends the reservation of the nexus, that of another one only by force
+func deviceRelease(lu *api.SCSILu, itn uuid.UUID, force bool) {
+	if force || uuid.Equal(lu.ReserveID, itn) {
+		lu.ReserveID = uuid.Nil
+	}
+}
-- 
2.43.0


From d8fe0a958eb27707704e9fc026543667ed2a4137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 12/49] fix: a LUN is mapped without a device or without its
 reservations

---
 pkg/scsi/scsilumap.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index a6fb823..bb84a15 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -115,6 +115,9 @@ func DelBackendStorage(deviceID uint64) {
 func AddLUNMapping(m LUNMapping) error {
 	globalSCSILUMap.mutex.Lock()
 	defer globalSCSILUMap.mutex.Unlock()
+	if globalSCSILUMap.AllDevices[m.DeviceID] == nil {
+		return fmt.Errorf("device %d does not exist", m.DeviceID)
+	}
 	mappingLUN(m)
 	// Init SCSISimpleReservationOperator
 	op := GetSCSIReservationOperator()
@@ -144,7 +147,9 @@ func InitSCSILUMap(config *config.Config) error {
 				return fmt.Errorf("LU Number must be a number")
 			}
 			m := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}
-			AddLUNMapping(m)
+			if err := AddLUNMapping(m); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -168,11 +173,10 @@ func InitSCSILUMapEx(config *config.BackendStorage, tgtName string, lun uint64,
 	globalSCSILUMap.AllDevices[config.DeviceID] = lu
 	globalSCSILUMap.mutex.Unlock()
 
-	mappingLUN(LUNMapping{
+	return AddLUNMapping(LUNMapping{
 		DeviceID:   config.DeviceID,
 		LUN:        lun,
 		TargetName: tgtName,
 	},
 	)
-	return nil
 }
-- 
2.43.0


From f19e6f8f07425af5620376d75eda827b354ca45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 13/49] fix: MODE SENSE reports the old capacity after a resize

---
 pkg/scsi/sbc.go  | 6 +++++-
 pkg/scsi/scsi.go | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index c2b1503..8c6d110 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -116,12 +116,16 @@ func (sbc SBCSCSIDeviceProtocol) InitLu(lu *api.SCSILu) error {
 	// Informational Exceptions Control page
 	pages = append(pages, api.ModePage{0x1c, 0, 10, []byte{8, 0, 0, 0, 0, 0, 0, 0, 0, 0}})
 	lu.ModePages = pages
+	initModeBlockDescriptor(lu)
+	return nil
+}
+
+func initModeBlockDescriptor(lu *api.SCSILu) {
 	mbd := util.MarshalUint32(uint32(0xffffffff))
 	if size := lu.Size >> lu.BlockShift; size>>32 == 0 {
 		mbd = util.MarshalUint32(uint32(size))
 	}
 	lu.ModeBlockDescriptor = append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
-	return nil
 }
 
 func (sbc SBCSCSIDeviceProtocol) ConfigLu(lu *api.SCSILu) error {
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index cfb8310..5b62744 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -64,6 +64,7 @@ func (s *SCSITargetService) Resize(size uint64) error {
 		if t.Devices != nil {
 			for i := range t.Devices {
 				t.Devices[i].Size = size
+				initModeBlockDescriptor(t.Devices[i])
 			}
 		}
 	}
-- 
2.43.0


From 080bc88c2be8d1b6ffd02e6dd2b48d4957bf6daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 14/49] fix: removing an unknown registration removes another
 one, PRGENERATION counts twice

---
 pkg/scsi/scsi_pr.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index f61ec30..9383677 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -205,8 +205,9 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 	resArray := LURes.Reservations
 	curRes := LURes.CurrentReservation
 
-	for i, tmpRes = range resArray {
+	for n, tmpRes := range resArray {
 		if tmpRes == res {
+			i = n
 			break
 		}
 	}
@@ -232,15 +233,9 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 		curRes.Scope = 0
 		curRes.Type = 0
 		LURes.CurrentReservation = nil
-		for i, tmpRes = range resArray {
-			if tmpRes == res {
-				continue
-			}
-			//TODO send sense code
-		}
-		LURes.PRGeneration++
+		//TODO send sense code
 	} else {
-		for i, tmpRes = range resArray {
+		for _, tmpRes = range resArray {
 			if tmpRes != res {
 				//kep scope and type
 				LURes.CurrentReservation = tmpRes
@@ -249,7 +244,6 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 				break
 			}
 		}
-		LURes.PRGeneration++
 	}
 
 }
@@ -258,7 +252,6 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 	var (
 		LURes     *SCSILUReservation
 		targetRes SCSILUReservationMap
-		tmpRes    *api.SCSIReservation
 		i         int = -1
 		ok        bool
 	)
@@ -270,8 +263,9 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 	}
 	resArray := LURes.Reservations
 
-	for i, tmpRes = range resArray {
+	for n, tmpRes := range resArray {
 		if tmpRes == res {
+			i = n
 			break
 		}
 	}
-- 
2.43.0


From 809c517c2a31ab950f2c76f533610a8b94d920d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 15/49] fix: persistent reservations: wrong or missing checks
 of keys, types and holders

---
 pkg/scsi/spc.go | 110 ++++++++++++++++++++++++++----------------------
 1 file changed, 60 insertions(+), 50 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 26b176d..af49eaf 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -835,7 +835,13 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 	if curRes == nil {
 		additionLength = 0
 	} else {
-		addBuf.Write(util.MarshalUint64(curRes.Key))
+		if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
+			curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
+			// all of the registered nexuses hold it
+			addBuf.Write(util.MarshalUint64(0))
+		} else {
+			addBuf.Write(util.MarshalUint64(curRes.Key))
+		}
 		//Obsolete
 		addBuf.WriteByte(0x00)
 		addBuf.WriteByte(0x00)
@@ -907,9 +913,8 @@ func reservationCheck(host int, cmd *api.SCSICommand) bool {
 		paramLen uint32
 		buf      []byte = cmd.OutSDBBuffer.Buffer
 	)
-	length, _ := SCSICDBBufXLength(cmd.SCB)
-	paramLen = uint32(length)
-	if paramLen != 24 {
+	paramLen = util.GetUnalignedUint32(cmd.SCB[5:9])
+	if paramLen != 24 || len(buf) < 24 {
 		return false
 	}
 	spec_i_pt := uint8(buf[20] & 0x08)
@@ -922,6 +927,19 @@ func reservationCheck(host int, cmd *api.SCSICommand) bool {
 	return true
 }
 
+func validReservationType(resType uint8) bool {
+	switch resType {
+	case PR_TYPE_WRITE_EXCLUSIVE,
+		PR_TYPE_EXCLUSIVE_ACCESS,
+		PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
+		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
+		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
+		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
+		return true
+	}
+	return false
+}
+
 func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		buf       []byte = cmd.OutSDBBuffer.Buffer
@@ -937,7 +955,7 @@ func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 	scsiResOp := GetSCSIReservationOperator()
 	res := scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
 
-	if scb[1] == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
+	if scb[1]&0x1f == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
 		ignoreKey = true
 	}
 	ok = reservationCheck(host, cmd)
@@ -1005,13 +1023,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 	resScope = scb[2] & 0xf0 >> 4
 	resType = scb[2] & 0x0f
 
-	switch resType {
-	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
-		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
-		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
-		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
-		break
-	default:
+	if !validReservationType(resType) {
 		goto sense
 	}
 	if resScope != PR_LU_SCOPE {
@@ -1019,7 +1031,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	if res == nil || res.Key != util.GetUnalignedUint64(cmd.OutSDBBuffer.Buffer[0:8]) {
 		return api.SAMStatReservationConflict
 	}
 
@@ -1074,7 +1086,7 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 	resKey = util.GetUnalignedUint64(buf[0:8])
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	if res == nil || resKey != res.Key {
 		return api.SAMStatReservationConflict
 	}
 
@@ -1087,10 +1099,6 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatGood
 	}
 
-	if resKey != res.Key {
-		return api.SAMStatReservationConflict
-	}
-
 	if curRes.Scope != resScope || curRes.Type != resType {
 		if cmd.InSDBBuffer != nil {
 			cmd.InSDBBuffer.Resid = 0
@@ -1103,18 +1111,6 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 	res.Scope = 0
 	res.Type = 0
 
-	switch resType {
-	case PR_TYPE_WRITE_EXCLUSIVE,
-		PR_TYPE_EXCLUSIVE_ACCESS,
-		PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
-		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
-		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
-		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
-		break
-	default:
-		goto sense
-	}
-
 	resList = scsiResOp.GetReservationList(tgtName, devUUID)
 	for _, tmpRes := range resList {
 		if tmpRes.ID == res.ID {
@@ -1144,7 +1140,6 @@ func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	ok = reservationCheck(host, cmd)
 	if !ok {
@@ -1171,12 +1166,8 @@ func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 		scsiResOp.SetCurrentReservation(tgtName, devUUID, nil)
 	}
 
-	for _, tmpRes := range resList {
-		if tmpRes != res {
-			//TODO send sense code
-		}
-		scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
-	}
+	//TODO send sense code to the others
+	scsiResOp.RemoveAllReservation(tgtName, devUUID)
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
@@ -1206,7 +1197,8 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
+	// registrations are removed while the list is gone through
+	resList := append([]*api.SCSIReservation{}, scsiResOp.GetReservationList(tgtName, devUUID)...)
 
 	ok = reservationCheck(host, cmd)
 	if !ok {
@@ -1229,16 +1221,23 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	if sAResKey != 0 {
 		ok = scsiResOp.IsKeyExists(tgtName, devUUID, sAResKey)
-		if ok {
+		if !ok {
 			return api.SAMStatReservationConflict
 		}
 	}
 
 	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
-	if curRes != nil {
+	if curRes == nil {
+		if sAResKey == 0 {
+			goto sense
+		}
+	} else {
 		if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
 			curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
 			if sAResKey == 0 {
+				if !validReservationType(resType) || resScope != PR_LU_SCOPE {
+					goto sense
+				}
 				if resType != curRes.Type ||
 					resScope != curRes.Scope {
 					resReleased = true
@@ -1249,7 +1248,10 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 				removeAllRes = true
 			}
 		} else {
-			if curRes.Key == resKey {
+			if curRes.Key == sAResKey {
+				if !validReservationType(resType) || resScope != PR_LU_SCOPE {
+					goto sense
+				}
 				if resType != curRes.Type ||
 					resScope != curRes.Scope {
 					resReleased = true
@@ -1270,9 +1272,9 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 			continue
 		}
 
-		if res.Key == resKey || removeAllRes {
+		if tmpRes.Key == sAResKey || removeAllRes {
 			//TODO send sense code
-			scsiResOp.RemoveReservation(tgtName, devUUID, res)
+			scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
 		} else {
 			if resReleased {
 				//TODO send sense code
@@ -1310,7 +1312,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	paramListLen = util.GetUnalignedUint32(scb[5:9])
-	if paramListLen < 24 {
+	if paramListLen < 24 || uint32(len(buf)) < paramListLen {
 		goto sense
 	}
 	aptpl = buf[17] & 0x01
@@ -1323,7 +1325,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resKey = util.GetUnalignedUint64(buf[0:8])
 	sAResKey = util.GetUnalignedUint64(buf[8:16])
 
-	tpidDataLen = util.GetUnalignedUint32(buf[20:25])
+	tpidDataLen = util.GetUnalignedUint32(buf[20:24])
 	if tpidDataLen < 24 || (tpidDataLen%4) != 0 {
 		goto sense
 	}
@@ -1342,20 +1344,26 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
-	if scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
-		return api.SAMStatGood
+	if res.Key != resKey {
+		return api.SAMStatReservationConflict
 	}
 
-	if res.Key != resKey {
+	if curRes == nil {
+		goto sense
+	}
+
+	// only the one holder of a reservation can move it
+	if curRes != res || curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
+		curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
 		return api.SAMStatReservationConflict
 	}
 
 	if sAResKey == 0 {
-		return api.SAMStatReservationConflict
+		goto sense
 	}
 
 	for _, dstReg = range resList {
-		if dstReg.Key == sAResKey {
+		if dstReg != res && dstReg.Key == sAResKey {
 			goto found
 		}
 	}
@@ -1363,6 +1371,8 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	goto sense
 found:
 	//TODO check transportid
+	dstReg.Type = curRes.Type
+	dstReg.Scope = curRes.Scope
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, dstReg)
 	if unreg != 0 {
 		scsiResOp.RemoveReservation(tgtName, devUUID, res)
-- 
2.43.0


From 656056ddf8a7d1d850ed7dfaee8830b0cc5612e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 16/49] fix: LUN of more than one byte and the fields of a task
 management request are not parsed

---
 pkg/port/iscsit/cmd.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index f592568..9042ff1 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -217,6 +217,27 @@ func ParseUint(data []byte) uint64 {
 	return out
 }
 
+// parseLUN gives the number of a logical unit, least significant byte first.
+// A LUN that can't be there (several levels, another addressing method) is all ones.
+func parseLUN(data []byte) (lun [8]uint8) {
+	single := true
+	for _, b := range data[2:8] {
+		single = single && b == 0
+	}
+	switch method := data[0] >> 6; {
+	case single && data[0] == 0: // peripheral device, bus 0
+		lun[0] = data[1]
+	case single && method == 1: // flat space
+		lun[0] = data[1]
+		lun[1] = data[0] & 0x3f
+	default:
+		for i := range lun {
+			lun[i] = 0xff
+		}
+	}
+	return lun
+}
+
 func parseHeader(data []byte) (*ISCSICommand, error) {
 	if len(data) != BHS_SIZE {
 		return nil, fmt.Errorf("garbled header")
@@ -232,7 +253,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	m.StartTime = time.Now()
 	switch m.OpCode {
 	case OpSCSICmd:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpectedDataLen = uint32(ParseUint(data[20:24]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.Read = data[1]&0x40 == 0x40
@@ -247,13 +268,15 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16, api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
 			m.Write = true
 		}
-		fallthrough
 	case OpSCSITaskReq:
+		m.LUN = parseLUN(data[8:16])
+		m.CmdSN = uint32(ParseUint(data[24:28]))
+		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
 	case OpSCSIOut:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.DataSN = uint32(ParseUint(data[36:40]))
 		m.BufferOffset = uint32(ParseUint(data[40:44]))
-- 
2.43.0


From 25909f64a226ff1e83b687443dfc64a5e19f0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 17/49] fix: additional header segments and padding are taken
 for data, length of the data segment is not limited

---
 pkg/port/iscsit/iscsid.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0db6b01..a8f2690 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -356,7 +356,13 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				return
 			}
 			conn.req = cmd
-			if length == BHS_SIZE && cmd.DataLen != 0 {
+			if cmd.DataLen > int(MaxRecvDataSegmentLength) {
+				log.Errorf("data segment of %d bytes is too long", cmd.DataLen)
+				log.Warningf("set connection to close")
+				conn.state = CONN_STATE_CLOSE
+				return
+			}
+			if length == BHS_SIZE && (cmd.DataLen != 0 || cmd.AHSLen != 0) {
 				conn.rxIOState = IOSTATE_RX_INIT_AHS
 				break
 			}
@@ -366,6 +372,15 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			}
 			final = true
 		case IOSTATE_RX_INIT_AHS:
+			if cmd == nil {
+				return
+			}
+			// there is no additional header we need
+			if _, err = conn.readData(make([]byte, cmd.AHSLen)); err != nil {
+				log.Error("read AHS failed: ", err)
+				conn.state = CONN_STATE_CLOSE
+				return
+			}
 			conn.rxIOState = IOSTATE_RX_DATA
 			break
 			if hdigest != 0 {
@@ -396,6 +411,8 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				conn.state = CONN_STATE_CLOSE
 				return
 			}
+			// without the padding
+			cmd.RawData = cmd.RawData[:cmd.DataLen]
 			final = true
 		default:
 			log.Errorf("error %d %d\n", conn.state, conn.rxIOState)
-- 
2.43.0


From 33b5c7050dd1cd304ccb53f5d3f69dec604d6b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 18/49] fix: residual counts of data-in commands, status in the
 wrong PDU, statistics of writes with R2T

---
 pkg/port/iscsit/cmd.go    | 30 +++++++++++++-----------------
 pkg/port/iscsit/conn.go   | 28 +++++++++++++++++-----------
 pkg/port/iscsit/iscsid.go |  3 ++-
 3 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 9042ff1..3cfddea 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -98,7 +98,9 @@ type ISCSICommand struct {
 	StartTime          time.Time
 	ExpCmdSN, MaxCmdSN uint32
 	AHSLen             int
-	Resid              uint32
+	// bytes by which the command missed, or exceeded, the expected data transfer length
+	Resid               uint32
+	Underflow, Overflow bool
 
 	// Connection ID.
 	ConnID uint16
@@ -317,12 +319,10 @@ func (m *ISCSICommand) scsiCmdRespBytes() []byte {
 	buf := bytes.Buffer{}
 	buf.WriteByte(byte(OpSCSIResp))
 	var flag byte = 0x80
-	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
-			flag |= 0x04
-		} else {
-			flag |= 0x02
-		}
+	if m.Overflow {
+		flag |= 0x04
+	} else if m.Underflow {
+		flag |= 0x02
 	}
 	buf.WriteByte(flag)
 	buf.WriteByte(byte(m.SCSIResponse))
@@ -371,20 +371,17 @@ func (m *ISCSICommand) dataInBytes() []byte {
 		flag |= 0x01
 	}
 	log.Debugf("resid: %v, ExpectedDataLen: %v", m.Resid, m.ExpectedDataLen)
-	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
+	// status and residual count go with the last PDU
+	if m.HasStatus && m.Final == true {
+		if m.Overflow {
 			flag |= 0x04
-		} else if m.Resid < m.ExpectedDataLen {
+		} else if m.Underflow {
 			flag |= 0x02
 		}
+		buf[3] = byte(m.Status)
+		copy(buf[44:], util.MarshalUint32(m.Resid))
 	}
 	buf[1] = flag
-	//buf.WriteByte(0x00)
-	if m.HasStatus && m.Final == true {
-		flag = byte(m.Status)
-	}
-	//buf.WriteByte(flag)
-	buf[3] = flag
 	copy(buf[5:], util.MarshalUint64(uint64(m.DataLen))[5:])
 	// Skip through to byte 16 Since A bit is not set 11.7.4
 	copy(buf[16:], util.MarshalUint32(m.TaskTag))
@@ -393,7 +390,6 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	copy(buf[32:], util.MarshalUint32(m.MaxCmdSN))
 	copy(buf[36:], util.MarshalUint32(m.DataSN))
 	copy(buf[40:], util.MarshalUint32(m.BufferOffset))
-	copy(buf[44:], util.MarshalUint32(m.Resid))
 	if m.ExpectedDataLen != 0 {
 		copy(buf[48:], m.RawData[m.BufferOffset:m.BufferOffset+uint32(m.DataLen)])
 	}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 0b0c14a..fb421a9 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -177,7 +177,10 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		}
 	case OpSCSIIn, OpSCSIResp:
 		conn.resp.OpCode = oc
-		conn.resp.SCSIOpCode = conn.req.SCSIOpCode
+		// the request may be the last Data-Out of the command
+		conn.resp.StartTime = task.cmd.StartTime
+		conn.resp.ExpectedDataLen = task.cmd.ExpectedDataLen
+		conn.resp.SCSIOpCode = task.cmd.SCSIOpCode
 		conn.resp.Immediate = true
 		conn.resp.Final = true
 		conn.resp.SCSIResponse = 0x00
@@ -187,16 +190,19 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		if scmd.Result != 0 && scmd.SenseBuffer != nil {
 			length := util.MarshalUint32(scmd.SenseBuffer.Length)
 			conn.resp.RawData = append(length[2:4], scmd.SenseBuffer.Buffer...)
-		} else if scmd.Direction == api.SCSIDataRead || scmd.Direction == api.SCSIDataWrite {
-			if scmd.InSDBBuffer != nil {
-				conn.resp.Resid = scmd.InSDBBuffer.Resid
-				if conn.resp.Resid != 0 && conn.resp.Resid < scmd.InSDBBuffer.Length {
-					conn.resp.RawData = scmd.InSDBBuffer.Buffer[:conn.resp.Resid]
-				} else {
-					conn.resp.RawData = scmd.InSDBBuffer.Buffer
-				}
-			} else {
-				conn.resp.RawData = []byte{}
+		} else if scmd.Direction == api.SCSIDataRead && scmd.InSDBBuffer != nil {
+			// what the command has for the initiator, and what that expects
+			have, want := scmd.InSDBBuffer.Resid, conn.resp.ExpectedDataLen
+			if have < want {
+				conn.resp.Underflow = true
+				conn.resp.Resid = want - have
+			} else if have > want {
+				conn.resp.Overflow = true
+				conn.resp.Resid = have - want
+				have = want
+			}
+			if oc == OpSCSIIn {
+				conn.resp.RawData = scmd.InSDBBuffer.Buffer[:have]
 			}
 		}
 
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index a8f2690..90f87b3 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -804,7 +804,8 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			return
 		} else {
-			if scmd.Direction == api.SCSIDataRead && scmd.SenseBuffer == nil && req.ExpectedDataLen != 0 {
+			// status other than GOOD comes in a SCSI response
+			if scmd.Direction == api.SCSIDataRead && scmd.Result == 0 && req.ExpectedDataLen != 0 {
 				conn.buildRespPackage(OpSCSIIn, task)
 			} else {
 				conn.buildRespPackage(OpSCSIResp, task)
-- 
2.43.0


From 4d97232f9bef40213cc6b7850af0f90d2012e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:46 +0000
Subject: [PATCH 19/49] fix: commands ahead of their turn are lost or executed
 in the wrong order, CmdSN is compared without wrapping

---
 pkg/port/iscsit/conn.go    |  2 --
 pkg/port/iscsit/iscsid.go  | 73 +++++++-------------------------------
 pkg/port/iscsit/session.go | 53 +++++++++++++++++++++++----
 3 files changed, 59 insertions(+), 69 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index fb421a9..fde1182 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -210,12 +210,10 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 		conn.resp.Result = task.result
 	case OpLoginResp:
 		conn.resp.OpCode = OpLoginResp
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 90f87b3..d76ae53 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -332,6 +332,11 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 	if conn.state == CONN_STATE_SCSI {
 		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
 		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
+		if cmd = conn.session.next(); cmd != nil {
+			conn.req = cmd
+			s.scsiCommandHandler(conn)
+			return
+		}
 	}
 	for {
 		switch conn.rxIOState {
@@ -716,6 +721,11 @@ SendRemainingData:
 
 func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error) {
 	req := conn.req
+	if !conn.session.order(req) {
+		conn.rxIOState = IOSTATE_RX_BHS
+		s.handler(DATAIN, conn)
+		return nil
+	}
 	switch req.OpCode {
 	case OpSCSICmd:
 		log.Debugf("SCSI Command processing...")
@@ -742,8 +752,8 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: scmd}
 		task.scmd.OpCode = conn.req.SCSIOpCode
 		if scmd.Direction == api.SCSIDataBidirection {
-			task.scmd.Result = api.SAMStatCheckCondition.Stat
 			scsi.BuildSenseData(task.scmd, scsi.ILLEGAL_REQUEST, scsi.NO_ADDITIONAL_SENSE)
+			task.scmd.Result = api.SAMStatCheckCondition.Stat
 			conn.buildRespPackage(OpSCSIResp, task)
 			conn.rxTask = nil
 			break
@@ -773,7 +783,6 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			if task.r2tCount > 0 {
 				// prepare to receive more data
-				conn.session.ExpCmdSN += 1
 				task.state = taskPending
 				conn.session.PendingTasksMutex.Lock()
 				conn.session.PendingTasks.Push(task)
@@ -797,11 +806,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		}
 		task.offset = 0
 		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
-			if task.state == taskPending {
-				s.handler(DATAIN, conn)
-				err = nil
-			}
+		if err = s.iscsiExecTask(task); err != nil {
 			return
 		} else {
 			// status other than GOOD comes in a SCSI response
@@ -816,7 +821,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		// task management function
 		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: nil}
 		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
+		if err = s.iscsiExecTask(task); err != nil {
 			return
 		}
 	case OpSCSIOut:
@@ -884,58 +889,6 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 	return nil
 }
 
-func (s *ISCSITargetDriver) iscsiTaskQueueHandler(task *iscsiTask) error {
-	conn := task.conn
-	sess := conn.session
-	cmd := task.cmd
-	if cmd.Immediate {
-		return s.iscsiExecTask(task)
-	}
-	cmdsn := cmd.CmdSN
-	log.Debugf("CmdSN of command is %d", cmdsn)
-	if cmdsn == sess.ExpCmdSN {
-	retry:
-		cmdsn += 1
-		sess.ExpCmdSN = cmdsn
-		log.Debugf("session's ExpCmdSN is %d", cmdsn)
-
-		log.Debugf("process task(%d)", task.cmd.CmdSN)
-		if err := s.iscsiExecTask(task); err != nil {
-			log.Error(err)
-		}
-		sess.PendingTasksMutex.Lock()
-		if sess.PendingTasks.Len() == 0 {
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task = sess.PendingTasks.Pop()
-		cmd = task.cmd
-		if cmd.CmdSN != cmdsn {
-			sess.PendingTasks.Push(task)
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task.state = taskSCSI
-		sess.PendingTasksMutex.Unlock()
-		goto retry
-	} else {
-		if cmd.CmdSN < sess.ExpCmdSN {
-			err := fmt.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
-			log.Error(err)
-			return err
-		}
-		log.Debugf("add task(%d) into task queue", task.cmd.CmdSN)
-		// add this task into queue and set it as a pending task
-		sess.PendingTasksMutex.Lock()
-		task.state = taskPending
-		sess.PendingTasks.Push(task)
-		sess.PendingTasksMutex.Unlock()
-		return fmt.Errorf("pending")
-	}
-
-	return nil
-}
-
 func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 	cmd := task.cmd
 	switch cmd.OpCode {
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index cd0c072..7b30b42 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -251,13 +251,14 @@ type ISCSISession struct {
 	// currently, this is only one connection per session
 	Connections        map[uint16]*iscsiConnection
 	ConnectionsRWMutex sync.RWMutex
-	Commands           []*ISCSICommand
-	PendingTasks       taskQueue
-	PendingTasksMutex  sync.RWMutex
-	MaxQueueCommand    uint32
-	SessionParam       ISCSISessionParamList
-	Info               string
-	Rdma               int
+	// commands which came before those they have to follow
+	Commands          []*ISCSICommand
+	PendingTasks      taskQueue
+	PendingTasksMutex sync.RWMutex
+	MaxQueueCommand   uint32
+	SessionParam      ISCSISessionParamList
+	Info              string
+	Rdma              int
 }
 
 type taskQueue []*iscsiTask
@@ -306,6 +307,44 @@ func (tq *taskQueue) RemoveByTag(tag uint32) *iscsiTask {
 	return nil
 }
 
+// order puts a command in its place among the others of the session. It tells
+// whether to go on with the command now: one which is ahead of its turn is kept
+// for later, and one from outside of the command window is ignored.
+func (sess *ISCSISession) order(cmd *ISCSICommand) bool {
+	if cmd.Immediate || cmd.OpCode == OpSCSIOut || cmd.OpCode == OpSNACKReq {
+		return true
+	}
+	// serial number arithmetic
+	ahead := int32(cmd.CmdSN - sess.ExpCmdSN)
+	switch {
+	case ahead < 0 || ahead > int32(sess.MaxQueueCommand):
+		log.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
+		return false
+	case ahead > 0:
+		log.Debugf("keep command(%d) for later", cmd.CmdSN)
+		for _, c := range sess.Commands {
+			if c.CmdSN == cmd.CmdSN {
+				return false
+			}
+		}
+		sess.Commands = append(sess.Commands, cmd)
+		return false
+	}
+	sess.ExpCmdSN++
+	return true
+}
+
+// next takes the command whose turn it is, when it has come already
+func (sess *ISCSISession) next() *ISCSICommand {
+	for i, cmd := range sess.Commands {
+		if cmd.CmdSN == sess.ExpCmdSN {
+			sess.Commands = append(sess.Commands[:i], sess.Commands[i+1:]...)
+			return cmd
+		}
+	}
+	return nil
+}
+
 func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, isid uint64, tsih uint16, tpgt uint16) *ISCSISession {
 	var (
 		tgt  *ISCSITarget
-- 
2.43.0


From f01105e407cfa316e78901ff4d25f3a575b4c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 20/49] fix: nexuses of a target are read without the lock they
 are changed under, its LUN map goes stale in the iSCSI driver

---
 pkg/port/iscsit/iscsit.go  | 4 ++--
 pkg/port/iscsit/session.go | 6 +++---
 pkg/scsi/scsi.go           | 2 ++
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/port/iscsit/iscsit.go b/pkg/port/iscsit/iscsit.go
index 9b0d445..e2963af 100644
--- a/pkg/port/iscsit/iscsit.go
+++ b/pkg/port/iscsit/iscsit.go
@@ -79,7 +79,7 @@ type iSCSITPGT struct {
 }
 
 type ISCSITarget struct {
-	api.SCSITarget
+	*api.SCSITarget
 	api.SCSITargetDriverCommon
 	// TPGT number is the key
 	TPGTs map[uint16]*iSCSITPGT
@@ -123,7 +123,7 @@ func (tgt *ISCSITarget) FindTPG(portal string) (uint16, error) {
 
 func newISCSITarget(target *api.SCSITarget) *ISCSITarget {
 	return &ISCSITarget{
-		SCSITarget: *target,
+		SCSITarget: target,
 		TPGTs:      make(map[uint16]*iSCSITPGT),
 		Sessions:   make(map[uint16]*ISCSISession),
 	}
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 7b30b42..c6cd7fd 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -372,7 +372,7 @@ func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
 	target.SessionsRWMutex.Lock()
 	defer target.SessionsRWMutex.Unlock()
 	delete(target.Sessions, sess.TSIH)
-	scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
+	scsi.RemoveITNexus(sess.Target.SCSITarget, sess.ITNexus)
 }
 
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
@@ -435,7 +435,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 				conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
 			//register normal session
 			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
+			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
 
@@ -457,7 +457,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			}
 
 			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
+			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
 
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 5b62744..f003b18 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -91,12 +91,14 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		return fmt.Errorf("Cannot find the target with ID(%d)", tid)
 	}
 	scmd.Target = target
+	target.ITNexusMutex.Lock()
 	for _, it := range target.ITNexus {
 		if uuid.Equal(it.ID, scmd.ITNexusID) {
 			itn = it
 			break
 		}
 	}
+	target.ITNexusMutex.Unlock()
 	scmd.ITNexus = itn
 	// a command may come without one of its data buffers
 	if scmd.InSDBBuffer == nil {
-- 
2.43.0


From 9a9c2d30c27b787269b0de25cf034ba955216c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 21/49] fix: an aborted task gets a response, ABORT TASK SET
 and LOGICAL UNIT RESET abort nothing

---
 pkg/port/iscsit/iscsid.go  | 24 +++++++++++++++---------
 pkg/port/iscsit/session.go | 13 +++++++++++++
 pkg/scsi/target.go         | 28 ++++++++++++++++++++++++++++
 3 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index d76ae53..549727d 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -914,20 +914,26 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 			if stask == nil {
 				task.result = ISCSI_TMF_RSP_NO_TASK
 			} else {
-				// abort this task
+				// there is no response to an aborted task
 				log.Debugf("abort the task[%v]", stask.tag)
-				if stask.scmd == nil {
-					stask.scmd = &api.SCSICommand{Result: api.SAM_STAT_TASK_ABORTED}
-				}
-				stask.conn = task.conn
-				log.Debugf("stask.conn: %#v", stask.conn)
-				stask.conn.buildRespPackage(OpSCSIResp, stask)
-				stask.conn.rxTask = nil
-				s.handler(DATAOUT, stask.conn)
 				task.result = ISCSI_TMF_RSP_COMPLETE
 			}
 		case ISCSI_TM_FUNC_ABORT_TASK_SET:
+			if !scsi.HasLogicalUnit(sess.Target.SCSITarget, cmd.LUN) {
+				task.result = ISCSI_TMF_RSP_NO_LUN
+				break
+			}
+			sess.abortTasks(cmd.LUN)
 		case ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+			if !scsi.ResetLogicalUnit(sess.Target.SCSITarget, cmd.LUN) {
+				task.result = ISCSI_TMF_RSP_NO_LUN
+				break
+			}
+			sess.Target.SessionsRWMutex.RLock()
+			for _, other := range sess.Target.Sessions {
+				other.abortTasks(cmd.LUN)
+			}
+			sess.Target.SessionsRWMutex.RUnlock()
 		case ISCSI_TM_FUNC_CLEAR_ACA:
 			fallthrough
 		case ISCSI_TM_FUNC_CLEAR_TASK_SET:
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index c6cd7fd..cd4ec9f 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -307,6 +307,19 @@ func (tq *taskQueue) RemoveByTag(tag uint32) *iscsiTask {
 	return nil
 }
 
+// abortTasks drops the tasks for a logical unit which still wait for their data
+func (sess *ISCSISession) abortTasks(lun [8]uint8) {
+	sess.PendingTasksMutex.Lock()
+	defer sess.PendingTasksMutex.Unlock()
+	tasks := taskQueue{}
+	for _, t := range sess.PendingTasks {
+		if t.cmd.LUN != lun {
+			tasks = append(tasks, t)
+		}
+	}
+	sess.PendingTasks = tasks
+}
+
 // order puts a command in its place among the others of the session. It tells
 // whether to go on with the command now: one which is ahead of its turn is kept
 // for later, and one from outside of the command window is ignored.
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 8bad45d..d7cdd87 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -17,6 +17,7 @@ limitations under the License.
 package scsi
 
 import (
+	"encoding/binary"
 	"fmt"
 
 	"github.com/gostor/gotgt/pkg/api"
@@ -99,6 +100,33 @@ func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	}
 }
 
+func findLogicalUnit(target *api.SCSITarget, lun [8]uint8) *api.SCSILu {
+	number := binary.LittleEndian.Uint64(lun[:])
+	if lu := target.Devices[number]; lu != nil {
+		return lu
+	}
+	if number == 0 {
+		return target.LUN0
+	}
+	return nil
+}
+
+// HasLogicalUnit tells whether the target has a logical unit with the number
+func HasLogicalUnit(target *api.SCSITarget, lun [8]uint8) bool {
+	return findLogicalUnit(target, lun) != nil
+}
+
+// ResetLogicalUnit ends the reservation of a logical unit. It returns false when
+// there is no such unit.
+func ResetLogicalUnit(target *api.SCSITarget, lun [8]uint8) bool {
+	lu := findLogicalUnit(target, lun)
+	if lu == nil {
+		return false
+	}
+	deviceRelease(lu, uuid.Nil, true)
+	return true
+}
+
 // deviceReserved tells whether another nexus than that of the command holds
 // the logical unit with a RESERVE command
 func deviceReserved(cmd *api.SCSICommand) error {
-- 
2.43.0


From 369925976462dbd54fad471ef1524b9d9294dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 22/49] fix: data of a write is taken from the wrong offset, a
 connection hangs on an unknown task tag or a failed command

---
 pkg/port/iscsit/iscsid.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 549727d..c110133 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -334,7 +334,10 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
 		if cmd = conn.session.next(); cmd != nil {
 			conn.req = cmd
-			s.scsiCommandHandler(conn)
+			if err = s.scsiCommandHandler(conn); err != nil {
+				log.Error(err)
+				conn.state = CONN_STATE_CLOSE
+			}
 			return
 		}
 	}
@@ -430,7 +433,11 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 	}
 
 	if conn.state == CONN_STATE_SCSI {
-		s.scsiCommandHandler(conn)
+		if err = s.scsiCommandHandler(conn); err != nil {
+			log.Error(err)
+			log.Warningf("set connection to close")
+			conn.state = CONN_STATE_CLOSE
+		}
 	} else {
 		conn.txIOState = IOSTATE_TX_BHS
 		conn.resp = &ISCSICommand{}
@@ -777,9 +784,14 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			log.Debugf("SCSI write, R2T count: %d, unsol Count: %d, offset: %d", task.r2tCount, task.unsolCount, task.offset)
 
+			if req.DataLen > len(scmd.OutSDBBuffer.Buffer) {
+				return fmt.Errorf("%d bytes of immediate data, expected %d", req.DataLen, req.ExpectedDataLen)
+			}
 			if conn.session.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value == 1 {
 				copy(scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
 				task.offset += conn.req.DataLen
+			} else if req.DataLen > 0 {
+				return fmt.Errorf("immediate data in a session without it")
 			}
 			if task.r2tCount > 0 {
 				// prepare to receive more data
@@ -830,9 +842,15 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
 		conn.session.PendingTasksMutex.RUnlock()
 		if task == nil {
-			err = fmt.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
-			log.Error(err)
-			return
+			// the task may have been aborted
+			log.Warnf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
+		}
+		if int64(conn.req.BufferOffset) != int64(task.offset) || conn.req.DataLen > task.r2tCount {
+			return fmt.Errorf("data out of place for task[%v]: %d bytes at %d, expected %d at %d", conn.req.TaskTag,
+				conn.req.DataLen, conn.req.BufferOffset, task.r2tCount, task.offset)
 		}
 		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
 		task.offset += conn.req.DataLen
-- 
2.43.0


From 4329c3cf403e39280f8b3e98f822235dcf254f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 23/49] fix: NOP-Out, Text and unknown requests are not
 answered in the full feature phase, and accepted before login

---
 pkg/port/iscsit/cmd.go    | 24 ++++++++++++++++++++++++
 pkg/port/iscsit/conn.go   | 13 ++++++++++++-
 pkg/port/iscsit/iscsid.go | 33 ++++++++++++++++++++++++++-------
 3 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 3cfddea..8764406 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -80,6 +80,12 @@ var opCodeMap = map[OpCode]string{
 
 const DataPadding = 4
 
+// RESERVED_TAG stands for the absence of a task tag
+const RESERVED_TAG uint32 = 0xffffffff
+
+// the target has no support for the rejected PDU
+const REJECT_COMMAND_NOT_SUPPORTED byte = 0x05
+
 type ISCSITaskManagementFunc struct {
 	Result            byte
 	TaskFunc          uint32
@@ -166,6 +172,8 @@ func (cmd *ISCSICommand) Bytes() []byte {
 		return cmd.scsiTMFRespBytes()
 	case OpReady:
 		return cmd.r2tRespBytes()
+	case OpReject:
+		return cmd.rejectBytes()
 	}
 	return nil
 }
@@ -246,6 +254,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	}
 	// TODO: sync.Pool
 	m := &ISCSICommand{}
+	m.RawHeader = data
 	m.Immediate = 0x40&data[0] == 0x40
 	m.OpCode = OpCode(data[0] & ISCSI_OPCODE_MASK)
 	m.Final = 0x80&data[1] == 0x80
@@ -498,6 +507,21 @@ func (m *ISCSICommand) scsiTMFRespBytes() []byte {
 	return buf.Bytes()
 }
 
+func (m *ISCSICommand) rejectBytes() []byte {
+	// rfc7143 11.17
+	var buf = make([]byte, BHS_SIZE)
+	buf[0] = byte(OpReject)
+	buf[1] = 0x80
+	buf[2] = m.Result // reason
+	copy(buf[5:], util.MarshalUint64(uint64(len(m.RawData)))[5:])
+	copy(buf[16:], util.MarshalUint32(RESERVED_TAG))
+	copy(buf[24:], util.MarshalUint32(m.StatSN))
+	copy(buf[28:], util.MarshalUint32(m.ExpCmdSN))
+	copy(buf[32:], util.MarshalUint32(m.MaxCmdSN))
+	// header of the rejected PDU, a multiple of 4
+	return append(buf, m.RawData...)
+}
+
 func (m *ISCSICommand) r2tRespBytes() []byte {
 	// rfc7143 11.8
 	buf := bytes.Buffer{}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index fde1182..c8caa5f 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -206,10 +206,21 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 			}
 		}
 
-	case OpNoopIn, OpReject:
+	case OpNoopIn:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
+		// ping data, as much of it as the initiator takes
+		conn.resp.RawData = conn.req.RawData
+		if val := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value; len(conn.resp.RawData) > int(val) {
+			conn.resp.RawData = conn.resp.RawData[:val]
+		}
+	case OpReject:
+		conn.resp.OpCode = oc
+		conn.resp.Final = true
+		conn.resp.NSG = FullFeaturePhase
+		conn.resp.Result = REJECT_COMMAND_NOT_SUPPORTED
+		conn.resp.RawData = conn.req.RawHeader
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index c110133..19164b1 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -441,9 +441,19 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 	} else {
 		conn.txIOState = IOSTATE_TX_BHS
 		conn.resp = &ISCSICommand{}
+		if conn.state != CONN_STATE_FULL && conn.req.OpCode != OpLoginReq {
+			log.Errorf("%s before login", opCodeMap[conn.req.OpCode])
+			log.Warningf("set connection to close")
+			conn.state = CONN_STATE_CLOSE
+			return
+		}
 		switch conn.req.OpCode {
 		case OpLoginReq:
 			log.Debug("OpLoginReq")
+			if conn.state == CONN_STATE_FULL {
+				iscsiExecReject(conn)
+				break
+			}
 			if err := s.iscsiExecLogin(conn); err != nil {
 				log.Error(err)
 				log.Warningf("set connection to close")
@@ -584,6 +594,10 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		ExpCmdSN: cmd.CmdSN,
 		MaxCmdSN: cmd.CmdSN,
 	}
+	if conn.state == CONN_STATE_SCSI {
+		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
+		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
+	}
 	conn.resp.RawData = util.MarshalKVText(result)
 	return nil
 }
@@ -887,20 +901,25 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			conn.session.PendingTasksMutex.Unlock()
 		}
 	case OpNoopOut:
+		if req.TaskTag == RESERVED_TAG {
+			// no response wanted
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
+		}
 		iscsiExecNoopOut(conn)
 	case OpLogoutReq:
 		s.setClientStatus(false)
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
 		conn.txIOState = IOSTATE_TX_BHS
 		iscsiExecLogout(conn)
-	case OpTextReq, OpSNACKReq:
-		err = fmt.Errorf("Cannot handle yet %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
+	case OpTextReq:
+		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
+		conn.txIOState = IOSTATE_TX_BHS
+		s.iscsiExecText(conn)
 	default:
-		err = fmt.Errorf("Unknown op %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
+		log.Errorf("Cannot handle op %s", opCodeMap[conn.req.OpCode])
+		iscsiExecReject(conn)
 	}
 	conn.rxIOState = IOSTATE_RX_BHS
 	s.handler(DATAIN|DATAOUT, conn)
-- 
2.43.0


From 7b78444a06abd99fe86431e53c5a33a88d870b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 24/49] fix: StatSN is copied from the request

---
 pkg/port/iscsit/conn.go   |  6 ++++--
 pkg/port/iscsit/iscsid.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index c8caa5f..48af88d 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -151,13 +151,12 @@ func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
 	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
 	conn.txIOState = IOSTATE_TX_BHS
-	conn.statSN += 1
 	if task == nil {
 		task = conn.rxTask
 	}
 	conn.resp = &ISCSICommand{
 		StartTime:       conn.req.StartTime,
-		StatSN:          conn.req.ExpStatSN,
+		StatSN:          conn.statSN,
 		TaskTag:         conn.req.TaskTag,
 		ExpectedDataLen: conn.req.ExpectedDataLen,
 	}
@@ -165,6 +164,9 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
 	}
+	if oc != OpReady {
+		conn.statSN++
+	}
 	switch oc {
 	case OpReady:
 		conn.resp.OpCode = OpReady
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 19164b1..868dcd3 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -483,6 +483,10 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	var cmd = conn.req
 
+	if conn.state == CONN_STATE_FREE {
+		// the first request tells where the status numbers start
+		conn.statSN = cmd.ExpStatSN
+	}
 	conn.cid = cmd.ConnID
 	conn.loginParam.iniCSG = cmd.CSG
 	conn.loginParam.iniNSG = cmd.NSG
@@ -529,9 +533,10 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 	cmd := conn.req
 	conn.resp = &ISCSICommand{
 		OpCode:  OpLogoutResp,
-		StatSN:  cmd.ExpStatSN,
+		StatSN:  conn.statSN,
 		TaskTag: cmd.TaskTag,
 	}
+	conn.statSN++
 	if conn.session == nil {
 		conn.resp.ExpCmdSN = cmd.CmdSN
 		conn.resp.MaxCmdSN = cmd.CmdSN
@@ -589,11 +594,12 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		OpCode:   OpTextResp,
 		Final:    true,
 		NSG:      FullFeaturePhase,
-		StatSN:   cmd.ExpStatSN,
+		StatSN:   conn.statSN,
 		TaskTag:  cmd.TaskTag,
 		ExpCmdSN: cmd.CmdSN,
 		MaxCmdSN: cmd.CmdSN,
 	}
+	conn.statSN++
 	if conn.state == CONN_STATE_SCSI {
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
-- 
2.43.0


From 91c694c09065fbc24e987162d831f45379b9e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 25/49] fix: Data-In PDUs are longer than the initiator
 accepts, its MaxRecvDataSegmentLength sizes the command window

---
 pkg/port/iscsit/iscsid.go  | 12 +++++++++---
 pkg/port/iscsit/login.go   |  3 +++
 pkg/port/iscsit/session.go | 10 +++-------
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 868dcd3..98bee64 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -495,9 +495,6 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	conn.loginParam.isid = cmd.ISID
 	conn.loginParam.tsih = cmd.TSIH
 	conn.expCmdSN = cmd.CmdSN
-	conn.maxBurstLength = MaxBurstLength
-	conn.maxRecvDataSegmentLength = MaxRecvDataSegmentLength
-	conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
 
 	if conn.loginParam.iniCSG == SecurityNegotiation {
 		if err := conn.processSecurityData(); err != nil {
@@ -510,6 +507,15 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	if _, err := conn.processLoginData(); err != nil {
 		return err
 	}
+	// how the data goes to the initiator
+	conn.maxBurstLength = uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value)
+	conn.maxRecvDataSegmentLength = uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value)
+	for _, limit := range []uint32{MaxRecvDataSegmentLength, conn.maxBurstLength} {
+		if conn.maxRecvDataSegmentLength > limit {
+			conn.maxRecvDataSegmentLength = limit
+		}
+	}
+	conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
 
 	if !conn.loginParam.paramInit {
 		if err := s.BindISCSISession(conn); err != nil {
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 7451e5b..8a8b6e8 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -120,6 +120,9 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 		if key == "MaxRecvDataSegmentLength" {
 			defSessKey, ok = sessionKeys["MaxXmitDataSegmentLength"]
 			uintVal, ok = defSessKey.conv(val)
+			if !ok || uintVal < defSessKey.min || uintVal > defSessKey.max {
+				return negoKV, fmt.Errorf("invalid %s=%s", key, val)
+			}
 			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
 			continue
 		}
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index cd4ec9f..d4dfd73 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -71,9 +71,9 @@ const (
 	/* "local" parmas, never sent to the initiator */
 	ISCSI_PARAM_FIRST_LOCAL
 	ISCSI_PARAM_MAX_XMIT_DLENGTH = ISCSI_PARAM_FIRST_LOCAL
-	ISCSI_PARAM_MAX_QUEUE_CMD
+	ISCSI_PARAM_MAX_QUEUE_CMD = ISCSI_PARAM_FIRST_LOCAL + 1
 	/* must always be last */
-	ISCSI_PARAM_MAX
+	ISCSI_PARAM_MAX = ISCSI_PARAM_FIRST_LOCAL + 2
 )
 
 type ISCSISessionParam struct {
@@ -88,11 +88,7 @@ func (list ISCSISessionParamList) Len() int {
 }
 
 func (list ISCSISessionParamList) Less(i, j int) bool {
-	if list[i].idx <= list[j].idx {
-		return true
-	} else {
-		return false
-	}
+	return list[i].idx < list[j].idx
 }
 
 func (list ISCSISessionParamList) Swap(i, j int) {
-- 
2.43.0


From 87690e9790e164de55dd2636e00e8c88ccbf6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 26/49] fix: results of the login negotiation are wrong,
 unknown keys and multi-step logins are refused, no TSIH in the login response

---
 pkg/port/iscsit/conn.go    | 16 +++-----
 pkg/port/iscsit/iscsid.go  | 31 ++++++++++++---
 pkg/port/iscsit/login.go   | 80 ++++++++++++++------------------------
 pkg/port/iscsit/session.go | 47 +++++++++++++++++-----
 4 files changed, 99 insertions(+), 75 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 48af88d..b145b8d 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -229,22 +229,16 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.NSG = FullFeaturePhase
 		conn.resp.Result = task.result
 	case OpLoginResp:
-		conn.resp.OpCode = OpLoginResp
+		conn.resp.OpCode = oc
 		conn.resp.Transit = conn.loginParam.tgtTrans
 		conn.resp.CSG = conn.req.CSG
 		conn.resp.NSG = conn.loginParam.tgtNSG
 		conn.resp.ExpCmdSN = conn.req.CmdSN
 		conn.resp.MaxCmdSN = conn.req.CmdSN
-		if conn.req.CSG != SecurityNegotiation {
-			negoKeys, err := conn.processLoginData()
-			if err != nil {
-				return err
-			}
-			if !conn.loginParam.keyDeclared {
-				negoKeys = loginKVDeclare(conn, negoKeys)
-				conn.loginParam.keyDeclared = true
-			}
-			conn.resp.RawData = util.MarshalKVText(negoKeys)
+		conn.resp.ISID = conn.req.ISID
+		conn.resp.TSIH = conn.req.TSIH
+		if conn.session != nil && conn.state == CONN_STATE_LOGIN_FULL {
+			conn.resp.TSIH = conn.session.TSIH
 		}
 		conn.txTask = nil
 	}
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 98bee64..6e39fc8 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -496,17 +496,30 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	conn.loginParam.tsih = cmd.TSIH
 	conn.expCmdSN = cmd.CmdSN
 
-	if conn.loginParam.iniCSG == SecurityNegotiation {
-		if err := conn.processSecurityData(); err != nil {
+	switch {
+	case conn.loginParam.iniCSG == LoginOperationalNegotiation:
+	case conn.loginParam.iniCSG == SecurityNegotiation && !conn.loginParam.paramInit:
+		negoKeys, err := conn.processSecurityData()
+		if err != nil {
 			return err
 		}
 		conn.state = CONN_STATE_LOGIN
-		return conn.buildRespPackage(OpLoginResp, nil)
+		if err = conn.buildRespPackage(OpLoginResp, nil); err != nil {
+			return err
+		}
+		conn.resp.RawData = util.MarshalKVText(negoKeys)
+		return nil
+	default:
+		return fmt.Errorf("login request for stage %s", conn.loginParam.iniCSG)
 	}
 
-	if _, err := conn.processLoginData(); err != nil {
+	negoKeys, err := conn.processLoginData()
+	if err != nil {
 		return err
 	}
+	if conn.loginParam.initiator == "" {
+		return fmt.Errorf("login request without a name of the initiator")
+	}
 	// how the data goes to the initiator
 	conn.maxBurstLength = uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value)
 	conn.maxRecvDataSegmentLength = uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value)
@@ -531,7 +544,15 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 		conn.state = CONN_STATE_LOGIN
 	}
 
-	return conn.buildRespPackage(OpLoginResp, nil)
+	if err = conn.buildRespPackage(OpLoginResp, nil); err != nil {
+		return err
+	}
+	if !conn.loginParam.keyDeclared {
+		negoKeys = loginKVDeclare(conn, negoKeys)
+		conn.loginParam.keyDeclared = true
+	}
+	conn.resp.RawData = util.MarshalKVText(negoKeys)
+	return nil
 }
 
 func iscsiExecLogout(conn *iscsiConnection) error {
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 8a8b6e8..66566e1 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -79,7 +79,8 @@ func stringsContains(s []string, p string) bool {
 	return false
 }
 
-func (conn *iscsiConnection) processSecurityData() error {
+func (conn *iscsiConnection) processSecurityData() ([]util.KeyValue, error) {
+	var negoKV []util.KeyValue
 	securityKV := util.ParseKVText(conn.req.RawData)
 
 	for key, val := range securityKV {
@@ -89,19 +90,23 @@ func (conn *iscsiConnection) processSecurityData() error {
 			if !stringsContains(vals, "None") {
 				// TODO: respond with Reject message, rather
 				// than terminating TCP connection.
-				return fmt.Errorf("client requesting AuthMethod:%s, only support None", val)
+				return nil, fmt.Errorf("client requesting AuthMethod:%s, only support None", val)
 			}
-			conn.loginParam.tgtNSG = LoginOperationalNegotiation
-			conn.loginParam.tgtTrans = true
 			conn.loginParam.authMethod = AuthNone
+			negoKV = append(negoKV, util.KeyValue{key, "None"})
 		} else if key == "TargetName" {
 			conn.loginParam.target = val
 		} else if key == "InitiatorName" {
 			conn.loginParam.initiator = val
+		} else if key == "SessionType" && val == "Discovery" {
+			conn.loginParam.sessionType = SESSION_DISCOVERY
 		}
 	}
+	// the next stage is always that of the operational parameters
+	conn.loginParam.tgtNSG = LoginOperationalNegotiation
+	conn.loginParam.tgtTrans = conn.loginParam.iniTrans
 
-	return nil
+	return negoKV, nil
 }
 
 func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
@@ -110,7 +115,6 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 		ok         bool
 		defSessKey *iscsiSessionKeys
 		negoKV     []util.KeyValue
-		kvChanges  int
 	)
 	loginKV := util.ParseKVText(conn.req.RawData)
 
@@ -137,60 +141,36 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 			conn.loginParam.target = val
 			continue
 		} else if key == "SessionType" {
-			if val == "Normal" {
+			switch val {
+			case "Normal":
 				conn.loginParam.sessionType = SESSION_NORMAL
-			} else {
+			case "Discovery":
 				conn.loginParam.sessionType = SESSION_DISCOVERY
+			default:
+				return negoKV, fmt.Errorf("invalid %s=%s", key, val)
 			}
 			continue
 		}
 
 		defSessKey, ok = sessionKeys[key]
-		if ok {
-			uintVal, ok = defSessKey.conv(val)
-
-			//hack here
-			if key == "HeaderDigest" || key == "DataDigest" {
-				if uintVal == DIGEST_ALL {
-					uintVal = DIGEST_NONE
-				}
-			}
-			if ok {
-				if defSessKey.constValue {
-					//the Negotiation Key cannot be changed! Uses Target default key
-					if uintVal != defSessKey.def {
-						kvChanges++
-					}
-					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-				} else {
-					if (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
-						conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
-					} else {
-						// the value out of the acceptable range, Uses target default key
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-						kvChanges++
-					}
-				}
-			}
-		} else {
-			//Unknown Key, reject it
-			return negoKV, fmt.Errorf("Unknowen Nego KV [%s:%s]", key, val)
+		if !ok || defSessKey.idx >= ISCSI_PARAM_FIRST_LOCAL {
+			negoKV = append(negoKV, util.KeyValue{key, "NotUnderstood"})
+			continue
 		}
+		uintVal, ok = defSessKey.negotiate(val)
+		if !ok {
+			negoKV = append(negoKV, util.KeyValue{key, "Reject"})
+			continue
+		}
+		conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+		negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
 	}
 
-	if kvChanges == 0 {
-		if (conn.loginParam.iniNSG == FullFeaturePhase) && conn.loginParam.iniTrans {
-			conn.loginParam.tgtNSG = FullFeaturePhase
-			conn.loginParam.tgtTrans = true
-		} else {
-			//Currently, we just reject these kind of cases
-			return negoKV, fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t",
-				conn.loginParam.iniCSG, conn.loginParam.iniNSG, conn.loginParam.iniTrans)
-		}
-	} else {
-		conn.loginParam.tgtNSG = FullFeaturePhase
-		conn.loginParam.tgtTrans = true
+	conn.loginParam.tgtTrans = conn.loginParam.iniTrans
+	conn.loginParam.tgtNSG = conn.loginParam.iniNSG
+	if conn.loginParam.iniTrans && conn.loginParam.iniNSG != FullFeaturePhase {
+		return negoKV, fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t",
+			conn.loginParam.iniCSG, conn.loginParam.iniNSG, conn.loginParam.iniTrans)
 	}
 	return negoKV, nil
 }
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index d4dfd73..6404817 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -71,7 +71,7 @@ const (
 	/* "local" parmas, never sent to the initiator */
 	ISCSI_PARAM_FIRST_LOCAL
 	ISCSI_PARAM_MAX_XMIT_DLENGTH = ISCSI_PARAM_FIRST_LOCAL
-	ISCSI_PARAM_MAX_QUEUE_CMD = ISCSI_PARAM_FIRST_LOCAL + 1
+	ISCSI_PARAM_MAX_QUEUE_CMD    = ISCSI_PARAM_FIRST_LOCAL + 1
 	/* must always be last */
 	ISCSI_PARAM_MAX = ISCSI_PARAM_FIRST_LOCAL + 2
 )
@@ -117,6 +117,34 @@ type iscsiSessionKeys struct {
 	inConv     KeyInConvFunc
 }
 
+// negotiate gives the result of the negotiation of a key: that of the list or
+// boolean function, or the limit both sides can live with. It returns false for
+// an offer which has no such result.
+func (k *iscsiSessionKeys) negotiate(value string) (uint, bool) {
+	offer, ok := k.conv(value)
+	if !ok || offer < k.min || offer > k.max {
+		return k.def, false
+	}
+	switch k.idx {
+	case ISCSI_PARAM_HDRDGST_EN, ISCSI_PARAM_DATADGST_EN:
+		// there is no digest
+		return DIGEST_NONE, offer&DIGEST_NONE != 0
+	case ISCSI_PARAM_INITIAL_R2T_EN, ISCSI_PARAM_PDU_INORDER_EN, ISCSI_PARAM_DATASEQ_INORDER_EN:
+		return offer | k.def, true
+	case ISCSI_PARAM_IMM_DATA_EN, ISCSI_PARAM_IFMARKER_EN, ISCSI_PARAM_OFMARKER_EN, ISCSI_PARAM_RDMA_EXTENSIONS:
+		return offer & k.def, true
+	case ISCSI_PARAM_DEFAULTTIME2WAIT:
+		if offer > k.def {
+			return offer, true
+		}
+		return k.def, true
+	}
+	if offer < k.def {
+		return offer, true
+	}
+	return k.def, true
+}
+
 func digestKeyConv(value string) (uint, bool) {
 	var crc uint
 	valueArray := strings.Split(value, ",")
@@ -128,8 +156,6 @@ func digestKeyConv(value string) (uint, bool) {
 			crc |= DIGEST_CRC32C
 		} else if strings.EqualFold(tmpV, "none") {
 			crc |= DIGEST_NONE
-		} else {
-			return crc, false
 		}
 	}
 
@@ -150,11 +176,14 @@ func digestKeyInConv(value uint) string {
 }
 
 func numberKeyConv(value string) (uint, bool) {
-	v, err := strconv.Atoi(value)
-	if err == nil {
-		return uint(v), true
+	// decimal, or hexadecimal after 0x
+	base := 10
+	if strings.HasPrefix(value, "0x") || strings.HasPrefix(value, "0X") {
+		value = value[2:]
+		base = 16
 	}
-	return uint(v), false
+	v, err := strconv.ParseUint(value, base, 32)
+	return uint(v), err == nil
 }
 
 func numberKeyInConv(value uint) string {
@@ -196,9 +225,9 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_MAX_BURST
 	"MaxBurstLength": {ISCSI_PARAM_MAX_BURST, true, 262144, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_PDU_INORDER_EN
-	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_DATASEQ_INORDER_EN
-	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_ERL
 	"ErrorRecoveryLevel": {ISCSI_PARAM_ERL, true, 0, 0, 2, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_IFMARKER_EN
-- 
2.43.0


From 61ca5c6f4e4cf430d32debe06d35684cfb9cc353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 27/49] fix: a session outlives its connections, sessions are
 not reinstated, a login with an unknown TSIH crashes the target

---
 pkg/port/iscsit/conn.go    |  5 ---
 pkg/port/iscsit/iscsid.go  | 36 ++++++++++---------
 pkg/port/iscsit/session.go | 73 ++++++++++++++++++++++++++++++--------
 3 files changed, 78 insertions(+), 36 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index b145b8d..cd511ac 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -143,11 +143,6 @@ func (c *iscsiConnection) close() {
 	c.conn.Close()
 }
 
-func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
-	conn.close()
-	conn.conn = newConn.conn
-}
-
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
 	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
 	conn.txIOState = IOSTATE_TX_BHS
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 6e39fc8..a77b5e9 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -103,6 +103,9 @@ func (s *ISCSITargetDriver) AllocTSIH() uint16 {
 }
 
 func (s *ISCSITargetDriver) ReleaseTSIH(tsih uint16) {
+	if tsih == ISCSI_UNSPEC_TSIH || tsih == ISCSI_MAX_TSIH {
+		return
+	}
 	s.TSIHPoolMutex.Lock()
 	delete(s.TSIHPool, tsih)
 	s.TSIHPoolMutex.Unlock()
@@ -290,14 +293,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 		go func() {
 			s.rxHandler(conn)
 			if conn.state == CONN_STATE_CLOSE {
-				log.Warningf("iscsi connection[%d] closed", conn.cid)
-				conn.close()
-				IPMutex.Lock()
-				remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-				if CurrentHostIP == remoteIP {
-					CurrentHostIP = ""
-				}
-				IPMutex.Unlock()
+				s.closeConnection(conn)
 			}
 		}()
 	}
@@ -306,15 +302,23 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 		s.txHandler(conn)
 	}
 	if conn.state == CONN_STATE_CLOSE {
-		log.Warningf("iscsi connection[%d] closed", conn.cid)
-		conn.close()
-		IPMutex.Lock()
-		remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-		if CurrentHostIP == remoteIP {
-			CurrentHostIP = ""
-		}
-		IPMutex.Unlock()
+		s.closeConnection(conn)
+	}
+}
+
+// closeConnection closes a connection, and ends the session which loses its last one
+func (s *ISCSITargetDriver) closeConnection(conn *iscsiConnection) {
+	log.Warningf("iscsi connection[%d] closed", conn.cid)
+	conn.close()
+	if sess := conn.session; sess != nil && sess.RemoveConnection(conn) {
+		s.UnBindISCSISession(sess)
 	}
+	IPMutex.Lock()
+	remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
+	if CurrentHostIP == remoteIP {
+		CurrentHostIP = ""
+	}
+	IPMutex.Unlock()
 }
 
 func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 6404817..b8bb45f 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -395,22 +395,35 @@ func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, i
 	}
 	tgt.SessionsRWMutex.RLock()
 	defer tgt.SessionsRWMutex.RUnlock()
+	if tsih == ISCSI_UNSPEC_TSIH {
+		// the session of the same initiator port
+		for _, sess = range tgt.Sessions {
+			if sess.Initiator == iniName && sess.ISID == isid && sess.TPGT == tpgt {
+				return sess
+			}
+		}
+		return nil
+	}
 	sess, ok = tgt.Sessions[tsih]
 	if !ok {
 		return nil
 	}
-	if (sess.ISID == isid) && (sess.TPGT == tpgt) {
+	if (sess.Initiator == iniName) && (sess.ISID == isid) && (sess.TPGT == tpgt) {
 		return sess
 	}
 	return nil
 }
 
+// UnBindISCSISession ends a session, only once for each
 func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
-	target := sess.Target
-	target.SessionsRWMutex.Lock()
-	defer target.SessionsRWMutex.Unlock()
-	delete(target.Sessions, sess.TSIH)
-	scsi.RemoveITNexus(sess.Target.SCSITarget, sess.ITNexus)
+	// a discovery session has no target
+	if target := sess.Target; target != nil {
+		target.SessionsRWMutex.Lock()
+		delete(target.Sessions, sess.TSIH)
+		scsi.RemoveITNexus(target.SCSITarget, sess.ITNexus)
+		target.SessionsRWMutex.Unlock()
+	}
+	s.ReleaseTSIH(sess.TSIH)
 }
 
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
@@ -457,8 +470,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		return fmt.Errorf("initiator err, invalid request")
 	}
 
-	if existSess == nil && conn.loginParam.tsih != 0 &&
-		existSess.TSIH != conn.loginParam.tsih {
+	if existSess == nil && conn.loginParam.tsih != ISCSI_UNSPEC_TSIH {
 		return fmt.Errorf("initiator err, no session")
 	}
 
@@ -489,7 +501,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		if conn.loginParam.tsih == ISCSI_UNSPEC_TSIH {
 			log.Infof("Session Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
 				conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-			newSess, err = s.ReInstatement(existConn.session, conn)
+			newSess, err = s.ReInstatement(existSess, conn)
 			if err != nil {
 				return err
 			}
@@ -506,7 +518,9 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			if existConn != nil {
 				log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
 					conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-				existConn.ReInstatement(conn)
+				existSess.ReplaceConnection(existConn, conn)
+			} else {
+				return fmt.Errorf("initiator err, too many connections")
 			}
 		}
 	}
@@ -565,16 +579,45 @@ func (s *ISCSITargetDriver) ReInstatement(existSess *ISCSISession, conn *iscsiCo
 	if err != nil {
 		return nil, err
 	}
-	newSess.ExpCmdSN = existSess.ExpCmdSN
-	newSess.MaxCmdSN = existSess.MaxCmdSN + 1
-	s.UnBindISCSISession(existSess)
-	for _, tmpConn := range existSess.Connections {
+	existSess.ConnectionsRWMutex.Lock()
+	conns := existSess.Connections
+	existSess.Connections = map[uint16]*iscsiConnection{}
+	existSess.ConnectionsRWMutex.Unlock()
+	if len(conns) > 0 {
+		// or else the session has ended already
+		s.UnBindISCSISession(existSess)
+	}
+	for _, tmpConn := range conns {
 		tmpConn.close()
 	}
-	existSess.Connections = map[uint16]*iscsiConnection{}
 	return newSess, nil
 }
 
+// RemoveConnection takes a connection out of the session. It returns true when
+// that was the last one.
+func (sess *ISCSISession) RemoveConnection(conn *iscsiConnection) bool {
+	sess.ConnectionsRWMutex.Lock()
+	defer sess.ConnectionsRWMutex.Unlock()
+	if sess.Connections[conn.cid] != conn {
+		return false
+	}
+	delete(sess.Connections, conn.cid)
+	return len(sess.Connections) == 0
+}
+
+// ReplaceConnection puts a connection in the place of a failed one, whose tasks end
+func (sess *ISCSISession) ReplaceConnection(old, conn *iscsiConnection) {
+	sess.ConnectionsRWMutex.Lock()
+	sess.Connections[conn.cid] = conn
+	sess.ConnectionsRWMutex.Unlock()
+	sess.PendingTasksMutex.Lock()
+	sess.PendingTasks = nil
+	sess.PendingTasksMutex.Unlock()
+	sess.Commands = nil
+	conn.session = sess
+	old.close()
+}
+
 /*
  * iSCSI I_T nexus identifer = (iSCSI Initiator Name + 'i' + ISID, iSCSI Target Name + 't' + Portal Group Tag)
  */
-- 
2.43.0


From afe9a4061bfc3bd0d5b9164593b8428ffbb39fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 28/49] fix: login text in several PDUs is parsed in pieces, a
 connection stays open after logout

---
 pkg/port/iscsit/iscsid.go | 19 ++++++++++++++++++-
 pkg/port/iscsit/login.go  |  2 ++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index a77b5e9..553ff2c 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -491,7 +491,9 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 		// the first request tells where the status numbers start
 		conn.statSN = cmd.ExpStatSN
 	}
-	conn.cid = cmd.ConnID
+	if conn.session == nil {
+		conn.cid = cmd.ConnID
+	}
 	conn.loginParam.iniCSG = cmd.CSG
 	conn.loginParam.iniNSG = cmd.NSG
 	conn.loginParam.iniCont = cmd.Cont
@@ -500,6 +502,19 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	conn.loginParam.tsih = cmd.TSIH
 	conn.expCmdSN = cmd.CmdSN
 
+	// the text may come in pieces
+	conn.loginParam.text = append(conn.loginParam.text, cmd.RawData...)
+	if len(conn.loginParam.text) > int(MaxRecvDataSegmentLength) {
+		return fmt.Errorf("%d bytes of login text", len(conn.loginParam.text))
+	}
+	if cmd.Cont {
+		conn.state = CONN_STATE_LOGIN
+		conn.loginParam.tgtTrans = false
+		return conn.buildRespPackage(OpLoginResp, nil)
+	}
+	cmd.RawData = conn.loginParam.text
+	conn.loginParam.text = nil
+
 	switch {
 	case conn.loginParam.iniCSG == LoginOperationalNegotiation:
 	case conn.loginParam.iniCSG == SecurityNegotiation && !conn.loginParam.paramInit:
@@ -581,6 +596,8 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 		CurrentHostIP = ""
 	}
 	IPMutex.Unlock()
+	// once the response is sent
+	conn.state = CONN_STATE_EXIT
 	return nil
 }
 
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 66566e1..f793aa1 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -191,6 +191,8 @@ type iscsiLoginParam struct {
 	sessionType  int
 	sessionParam ISCSISessionParamList
 	keyDeclared  bool
+	// what has come so far of the text of a request
+	text []byte
 
 	initiator      string
 	initiatorAlias string
-- 
2.43.0


From 1280d80fe533ec4a63d98c9c9a095b8e47ca95fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 29/49] fix: an empty or keyless item hides the key=value pair
 after it

---
 pkg/util/util.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 5ef830f..665c0ce 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -43,19 +43,23 @@ func GetUnalignedUint64(u8 []uint8) uint64 {
 // ParseKVText parses iSCSI key value data.
 func ParseKVText(txt []byte) map[string]string {
 	m := make(map[string]string)
-	var kv, sep int
+	var kv, sep = 0, -1
 	var key string
 	for i := 0; i < len(txt); i++ {
 		if txt[i] == '=' {
-			if key == "" {
+			if sep < kv {
 				sep = i
 				key = string(txt[kv:sep])
 			}
 			continue
 		}
-		if txt[i] == 0 && key != "" {
-			m[key] = string(txt[sep+1 : i])
+		if txt[i] == 0 {
+			// what has no key is skipped
+			if key != "" {
+				m[key] = string(txt[sep+1 : i])
+			}
 			key = ""
+			sep = i
 			kv = i + 1
 		}
 	}
-- 
2.43.0


From 7526cf068dd6dae1222cac0079dc58984ef2532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 30/49] fix: portals are found by their position, SendTargets
 with a name has no answer

---
 pkg/port/iscsit/iscsid.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 553ff2c..92b7332 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -129,8 +129,16 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 		targetPortName := fmt.Sprintf("%s,t,0x%02x", tgtName, tpgtNumber)
 		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
 		for _, portalID := range portalIDArrary {
-			portal := configInfo.ISCSIPortals[portalID]
-			s.AddiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+			found := false
+			for _, portal := range configInfo.ISCSIPortals {
+				if uint64(portal.ID) == portalID {
+					s.AddiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+					found = true
+				}
+			}
+			if !found {
+				return fmt.Errorf("No portal with ID(%d)", portalID)
+			}
 		}
 	}
 	return nil
@@ -606,8 +614,13 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 	cmd := conn.req
 	keys := util.ParseKVText(cmd.RawData)
 	if st, ok := keys["SendTargets"]; ok {
-		if st == "All" {
-			for name, tgt := range s.iSCSITargets {
+		// all targets in a discovery session, in another its own
+		for name, tgt := range s.iSCSITargets {
+			wanted := st == name || st == "All"
+			if conn.session.Target != nil {
+				wanted = conn.session.Target == tgt && (st == name || st == "")
+			}
+			if wanted {
 				log.Debugf("iscsi target: %v", name)
 				//log.Debugf("iscsi target portals: %v", tgt.Portals)
 
-- 
2.43.0


From 150db259349f86cdca0fc11cb71944301a4331ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 31/49] fix: a read up to the end of a remote store fails

---
 pkg/scsi/backingstore/remote/remote.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/backingstore/remote/remote.go b/pkg/scsi/backingstore/remote/remote.go
index 5d6a12e..291fcf2 100644
--- a/pkg/scsi/backingstore/remote/remote.go
+++ b/pkg/scsi/backingstore/remote/remote.go
@@ -18,6 +18,7 @@ package remote
 
 import (
 	"fmt"
+	"io"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/scsi"
@@ -82,7 +83,8 @@ func (bs *RemBackingStore) Size(dev *api.SCSILu) uint64 {
 func (bs *RemBackingStore) Read(offset, tl int64) ([]byte, error) {
 	tmpbuf := make([]byte, tl)
 	length, err := bs.RemBs.ReadAt(tmpbuf, offset)
-	if err != nil {
+	// a reader may tell about the end along with the last bytes
+	if err != nil && (err != io.EOF || length != len(tmpbuf)) {
 		return nil, err
 	}
 	if length != len(tmpbuf) {
-- 
2.43.0


From 18ab46aaa28acd693880e79cefac9fbbcd0ae0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:16 +0000
Subject: [PATCH 32/49] fix: reject unknown PDUs whatever their CmdSN would be

---
 pkg/port/iscsit/session.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index b8bb45f..c43eb7b 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -349,7 +349,13 @@ func (sess *ISCSISession) abortTasks(lun [8]uint8) {
 // whether to go on with the command now: one which is ahead of its turn is kept
 // for later, and one from outside of the command window is ignored.
 func (sess *ISCSISession) order(cmd *ISCSICommand) bool {
-	if cmd.Immediate || cmd.OpCode == OpSCSIOut || cmd.OpCode == OpSNACKReq {
+	if cmd.Immediate {
+		return true
+	}
+	switch cmd.OpCode {
+	case OpNoopOut, OpSCSICmd, OpSCSITaskReq, OpLoginReq, OpTextReq, OpLogoutReq:
+	default:
+		// it has no number
 		return true
 	}
 	// serial number arithmetic
-- 
2.43.0


From e8857fd5b4ede5b414d2a09cdb6e5131a0bbb561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 33/49] fix: tell the initiator why its login is refused

---
 pkg/port/iscsit/iscsid.go  | 21 +++++++++++++++++----
 pkg/port/iscsit/login.go   | 25 ++++++++++++++++++++++---
 pkg/port/iscsit/session.go |  8 ++++----
 3 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 92b7332..e33634b 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -468,8 +468,7 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			}
 			if err := s.iscsiExecLogin(conn); err != nil {
 				log.Error(err)
-				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
+				iscsiRefuseLogin(conn, err)
 			}
 		case OpLogoutReq:
 			log.Debug("OpLogoutReq")
@@ -545,7 +544,7 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 		return err
 	}
 	if conn.loginParam.initiator == "" {
-		return fmt.Errorf("login request without a name of the initiator")
+		return &loginError{LoginMissingParameter, "login request without a name of the initiator"}
 	}
 	// how the data goes to the initiator
 	conn.maxBurstLength = uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value)
@@ -559,7 +558,6 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 
 	if !conn.loginParam.paramInit {
 		if err := s.BindISCSISession(conn); err != nil {
-			conn.state = CONN_STATE_EXIT
 			return err
 		}
 		conn.loginParam.paramInit = true
@@ -582,6 +580,21 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	return nil
 }
 
+// iscsiRefuseLogin answers a login request with the status for the error
+func iscsiRefuseLogin(conn *iscsiConnection, err error) {
+	conn.loginParam.tgtTrans = false
+	conn.loginParam.tgtNSG = SecurityNegotiation
+	conn.buildRespPackage(OpLoginResp, nil)
+	status := LoginInitiatorError
+	if e, ok := err.(*loginError); ok {
+		status = e.status
+	}
+	conn.resp.StatusClass = uint8(status >> 8)
+	conn.resp.StatusDetail = uint8(status & 0xff)
+	// once the response is sent
+	conn.state = CONN_STATE_EXIT
+}
+
 func iscsiExecLogout(conn *iscsiConnection) error {
 	log.Infof("Logout request received from initiator: %v", conn.conn.RemoteAddr().String())
 	cmd := conn.req
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index f793aa1..eefe7fb 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -42,6 +42,27 @@ var (
 		{"DataSequenceInOrder", "Yes"}}
 )
 
+// status class and detail of a refused login, rfc7143 11.13.5
+const (
+	LoginInitiatorError   uint16 = 0x0200
+	LoginAuthFailure      uint16 = 0x0201
+	LoginTargetNotFound   uint16 = 0x0203
+	LoginTooManyConns     uint16 = 0x0206
+	LoginMissingParameter uint16 = 0x0207
+	LoginNoSession        uint16 = 0x020a
+	LoginOutOfResources   uint16 = 0x0302
+)
+
+// loginError is an error with a status of its own
+type loginError struct {
+	status uint16
+	msg    string
+}
+
+func (e *loginError) Error() string {
+	return e.msg
+}
+
 type iSCSILoginStage int
 
 const (
@@ -88,9 +109,7 @@ func (conn *iscsiConnection) processSecurityData() ([]util.KeyValue, error) {
 			// It can be a list.
 			vals := strings.Split(val, ",")
 			if !stringsContains(vals, "None") {
-				// TODO: respond with Reject message, rather
-				// than terminating TCP connection.
-				return nil, fmt.Errorf("client requesting AuthMethod:%s, only support None", val)
+				return nil, &loginError{LoginAuthFailure, fmt.Sprintf("client requesting AuthMethod:%s, only support None", val)}
 			}
 			conn.loginParam.authMethod = AuthNone
 			negoKV = append(negoKV, util.KeyValue{key, "None"})
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index c43eb7b..61646a2 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -453,7 +453,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			}
 		}
 		if target == nil {
-			return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
+			return &loginError{LoginTargetNotFound, fmt.Sprintf("No target found with name(%s)", conn.loginParam.target)}
 		}
 
 		tpgt, err = target.FindTPG(conn.conn.LocalAddr().String())
@@ -477,7 +477,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	}
 
 	if existSess == nil && conn.loginParam.tsih != ISCSI_UNSPEC_TSIH {
-		return fmt.Errorf("initiator err, no session")
+		return &loginError{LoginNoSession, "initiator err, no session"}
 	}
 
 	if existSess == nil {
@@ -526,7 +526,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 					conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
 				existSess.ReplaceConnection(existConn, conn)
 			} else {
-				return fmt.Errorf("initiator err, too many connections")
+				return &loginError{LoginTooManyConns, "initiator err, too many connections"}
 			}
 		}
 	}
@@ -553,7 +553,7 @@ func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISessio
 
 	tsih = s.AllocTSIH()
 	if tsih == ISCSI_UNSPEC_TSIH {
-		return nil, fmt.Errorf("TSIH Pool exhausted tid(%d)", conn.tid)
+		return nil, &loginError{LoginOutOfResources, fmt.Sprintf("TSIH Pool exhausted tid(%d)", conn.tid)}
 	}
 
 	sess := &ISCSISession{
-- 
2.43.0


From 539e9fbc9285ce380a7d25fbd4b89e22d6574c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:55 +0000
Subject: [PATCH 34/49] fix: close a connection which can't be written to

---
 pkg/port/iscsit/iscsid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index e33634b..f5a1777 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -756,6 +756,8 @@ SendRemainingData:
 			}
 			if l, err := conn.write(resp.Bytes()); err != nil {
 				log.Errorf("failed to write data to client: %v", err)
+				log.Warningf("set connection to close")
+				conn.state = CONN_STATE_CLOSE
 				return
 			} else {
 				conn.txIOState = IOSTATE_TX_INIT_AHS
-- 
2.43.0


From 1e072649939b82e34066457286b09e915cbc9a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:31 +0000
Subject: [PATCH 35/49] fix: keep the login stages in order

---
 pkg/port/iscsit/iscsid.go | 6 ++++++
 pkg/port/iscsit/login.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index f5a1777..4c78ff2 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -497,7 +497,10 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	if conn.state == CONN_STATE_FREE {
 		// the first request tells where the status numbers start
 		conn.statSN = cmd.ExpStatSN
+	} else if cmd.CSG != conn.loginParam.tgtCSG {
+		return fmt.Errorf("login request for stage %s in stage %s", cmd.CSG, conn.loginParam.tgtCSG)
 	}
+	conn.loginParam.tgtCSG = cmd.CSG
 	if conn.session == nil {
 		conn.cid = cmd.ConnID
 	}
@@ -530,6 +533,9 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 			return err
 		}
 		conn.state = CONN_STATE_LOGIN
+		if conn.loginParam.tgtTrans {
+			conn.loginParam.tgtCSG = conn.loginParam.tgtNSG
+		}
 		if err = conn.buildRespPackage(OpLoginResp, nil); err != nil {
 			return err
 		}
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index eefe7fb..2ba9fbc 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -102,6 +102,9 @@ func stringsContains(s []string, p string) bool {
 
 func (conn *iscsiConnection) processSecurityData() ([]util.KeyValue, error) {
 	var negoKV []util.KeyValue
+	if next := conn.loginParam.iniNSG; conn.loginParam.iniTrans && next != LoginOperationalNegotiation && next != FullFeaturePhase {
+		return nil, fmt.Errorf("reject CSG=%s,NSG=%s", conn.loginParam.iniCSG, next)
+	}
 	securityKV := util.ParseKVText(conn.req.RawData)
 
 	for key, val := range securityKV {
-- 
2.43.0


From 570ad2f942d8a0baf16fc49988b1097e74552a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 36/49] fix: two logins at once leave two sessions of one
 initiator port

---
 pkg/port/iscsit/iscsid.go  | 1 +
 pkg/port/iscsit/session.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 4c78ff2..fae30a6 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -65,6 +65,7 @@ type ISCSITargetDriver struct {
 	TargetStats            scsi.Stats
 	clusterIP              string
 	blockMultipleHostLogin bool
+	bindMutex              sync.Mutex
 }
 
 func init() {
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 61646a2..8b8888e 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -441,6 +441,9 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		tpgt      uint16
 		err       error
 	)
+	// only one login at a time looks for the session to replace
+	s.bindMutex.Lock()
+	defer s.bindMutex.Unlock()
 
 	//Find TPGT and Target ID
 	if conn.loginParam.sessionType == SESSION_DISCOVERY {
-- 
2.43.0


From a5526ec66a14472d511b378eb38a161288a3d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 37/49] fix: an initiator which logs in again is not the one it
 was for persistent reservations

---
 pkg/port/iscsit/session.go | 11 +++++++++--
 pkg/scsi/target.go         | 13 +++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 8b8888e..baddcc3 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -493,7 +493,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			log.Infof("Login request received from initiator: %v, Session type: %s, Target name:%v, ISID: 0x%x",
 				conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
 			//register normal session
-			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
+			itnexus := newITNexus(newSess)
 			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
@@ -515,7 +515,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 				return err
 			}
 
-			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
+			itnexus := newITNexus(newSess)
 			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
@@ -637,3 +637,10 @@ func GeniSCSIITNexusID(sess *ISCSISession) string {
 		sess.TPGT)
 	return strID
 }
+
+// newITNexus is the nexus of a session: it is the same one whenever the initiator
+// port logs in to the target portal group, as persistent reservations outlive sessions
+func newITNexus(sess *ISCSISession) *api.ITNexus {
+	tag := GeniSCSIITNexusID(sess)
+	return &api.ITNexus{uuid.NewV5(uuid.NamespaceOID, tag), tag}
+}
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index d7cdd87..2acaa4f 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -84,6 +84,9 @@ func AddITNexus(target *api.SCSITarget, itnexus *api.ITNexus) bool {
 		target.ITNexus[itnexus.ID] = itnexus
 		ret = true
 	} else {
+		// that of a session which has not quite ended yet
+		loseITNexus(target, itnexus.ID)
+		target.ITNexus[itnexus.ID] = itnexus
 		ret = false
 	}
 	return ret
@@ -92,10 +95,16 @@ func AddITNexus(target *api.SCSITarget, itnexus *api.ITNexus) bool {
 func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	target.ITNexusMutex.Lock()
 	defer target.ITNexusMutex.Unlock()
-	delete(target.ITNexus, itnexus.ID)
+	if target.ITNexus[itnexus.ID] == itnexus {
+		loseITNexus(target, itnexus.ID)
+	}
+}
+
+func loseITNexus(target *api.SCSITarget, id uuid.UUID) {
+	delete(target.ITNexus, id)
 	for _, lu := range target.Devices {
 		if lu != nil {
-			deviceRelease(lu, itnexus.ID, false)
+			deviceRelease(lu, id, false)
 		}
 	}
 }
-- 
2.43.0


From 354ea4b8a0a3d3c609da8e7f6b8e352cf5e1c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 38/49] fix: a persistent reservation keeps nobody from the
 medium

---
 pkg/scsi/lun.go | 29 +++++++++++++++++++++++++++++
 pkg/scsi/sbc.go | 18 +++++++++---------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 4e99ed8..f5bea14 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -98,12 +98,41 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 			if err := deviceReserved(cmd); err != nil {
 				return api.SAMStatReservationConflict
 			}
+			if persistentlyReserved(cmd, fnop.PRConflictBits) {
+				return api.SAMStatReservationConflict
+			}
 		}
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	return api.SAMStatGood
 }
 
+// persistentlyReserved tells whether a persistent reservation keeps the nexus of
+// the command from it, by the conflicts of the command
+func persistentlyReserved(cmd *api.SCSICommand, conflicts uint8) bool {
+	op := GetSCSIReservationOperator()
+	held := op.GetCurrentReservation(cmd.Target.Name, cmd.Device.UUID)
+	if held == nil {
+		return false
+	}
+	own := op.GetReservation(cmd.Target.Name, cmd.Device.UUID, cmd.ITNexusID)
+	if own != nil && op.IsCurrentReservation(cmd.Target.Name, cmd.Device.UUID, own) {
+		// a holder
+		return false
+	}
+	switch held.Type {
+	case PR_TYPE_WRITE_EXCLUSIVE:
+		return conflicts&PR_WE_FA != 0
+	case PR_TYPE_EXCLUSIVE_ACCESS:
+		return conflicts&PR_EA_FA != 0
+	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY, PR_TYPE_WRITE_EXCLUSIVE_ALLREG:
+		return own == nil && conflicts&PR_WE_FN != 0
+	case PR_TYPE_EXCLUSIVE_ACCESS_REGONLY, PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
+		return own == nil && conflicts&PR_EA_FN != 0
+	}
+	return false
+}
+
 func luPreventRemoval(lu *api.SCSILu) bool {
 	// TODO
 	return false
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 8c6d110..221d269 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -156,7 +156,7 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	}
 	sbc.SCSIDeviceOps[api.TEST_UNIT_READY] = NewSCSIDeviceOperation(SPCTestUnit, nil, 0)
 	sbc.SCSIDeviceOps[api.REQUEST_SENSE] = NewSCSIDeviceOperation(SPCRequestSense, nil, 0)
-	sbc.SCSIDeviceOps[api.FORMAT_UNIT] = NewSCSIDeviceOperation(SBCFormatUnit, nil, 0)
+	sbc.SCSIDeviceOps[api.FORMAT_UNIT] = NewSCSIDeviceOperation(SBCFormatUnit, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.READ_6] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_6] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
 	sbc.SCSIDeviceOps[api.INQUIRY] = NewSCSIDeviceOperation(SPCInquiry, nil, 0)
@@ -172,14 +172,14 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	sbc.SCSIDeviceOps[api.READ_CAPACITY] = NewSCSIDeviceOperation(SBCReadCapacity, nil, 0)
 	sbc.SCSIDeviceOps[api.READ_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_EA_FN|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_10] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.PRE_FETCH_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SYNCHRONIZE_CACHE] = NewSCSIDeviceOperation(SBCSyncCache, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 
-	sbc.SCSIDeviceOps[api.WRITE_SAME] = NewSCSIDeviceOperation(SBCReadWrite, nil, 0)
-	sbc.SCSIDeviceOps[api.UNMAP] = NewSCSIDeviceOperation(SBCUnmap, nil, 0)
+	sbc.SCSIDeviceOps[api.WRITE_SAME] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.UNMAP] = NewSCSIDeviceOperation(SBCUnmap, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.MODE_SELECT_10] = NewSCSIDeviceOperation(SBCModeSelect, nil, PR_WE_FA|PR_EA_FA|PR_EA_FN|PR_WE_FN)
 	sbc.SCSIDeviceOps[api.MODE_SENSE_10] = NewSCSIDeviceOperation(SBCModeSense, nil, PR_WE_FA|PR_WE_FN|PR_EA_FA|PR_EA_FN)
@@ -205,14 +205,14 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	sbc.SCSIDeviceOps[api.READ_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
 	if EnableORWrite16 {
-		sbc.SCSIDeviceOps[api.ORWRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+		sbc.SCSIDeviceOps[api.ORWRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	}
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_16] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.PRE_FETCH_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SYNCHRONIZE_CACHE_16] = NewSCSIDeviceOperation(SBCSyncCache, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_SAME_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, 0)
+	sbc.SCSIDeviceOps[api.WRITE_SAME_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SERVICE_ACTION_IN] = NewSCSIDeviceOperation(SBCServiceAction, nil, 0)
 
 	sbc.SCSIDeviceOps[api.REPORT_LUNS] = NewSCSIDeviceOperation(SPCReportLuns, nil, 0)
@@ -221,8 +221,8 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	}, 0)
 	sbc.SCSIDeviceOps[api.EXCHANGE_MEDIUM] = NewSCSIDeviceOperation(SPCIllegalOp, nil, 0)
 	sbc.SCSIDeviceOps[api.READ_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
-	sbc.SCSIDeviceOps[api.WRITE_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FA|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_12] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	return sbc
-- 
2.43.0


From 09d44810adb9807bb008615694e3f988ca02ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 39/49] fix: a portal group number which is none is taken for
 another

---
 cmd/daemon.go             | 5 ++++-
 pkg/port/iscsit/iscsid.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/daemon.go b/cmd/daemon.go
index f32affd..793fba8 100644
--- a/cmd/daemon.go
+++ b/cmd/daemon.go
@@ -95,7 +95,10 @@ func createDaemon(host, driver, level string, blockMultipleHosts bool, port int)
 	}
 
 	for tgtname := range config.ISCSITargets {
-		targetDriver.NewTarget(tgtname, config)
+		if err = targetDriver.NewTarget(tgtname, config); err != nil {
+			log.Error(err)
+			return err
+		}
 	}
 
 	if blockMultipleHosts {
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index fae30a6..30f4ee3 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -125,7 +125,10 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 	scsiTPG := tgt.SCSITarget.TargetPortGroups[0]
 	targetConfig := configInfo.ISCSITargets[tgtName]
 	for tpgt, portalIDArrary := range targetConfig.TPGTs {
-		tpgtNumber, _ := strconv.ParseUint(tpgt, 10, 16)
+		tpgtNumber, err := strconv.ParseUint(tpgt, 10, 16)
+		if err != nil {
+			return fmt.Errorf("TPGT(%s) must be a number from 0 to 65535", tpgt)
+		}
 		tgt.TPGTs[uint16(tpgtNumber)] = &iSCSITPGT{uint16(tpgtNumber), make(map[string]struct{})}
 		targetPortName := fmt.Sprintf("%s,t,0x%02x", tgtName, tpgtNumber)
 		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
-- 
2.43.0


From cc8a9f72b493cdd7d81a4eeafce0de462c415b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 40/49] fix: another host gets in when one connection of the
 current host ends

---
 pkg/port/iscsit/conn.go   |  1 +
 pkg/port/iscsit/iscsid.go | 48 +++++++++++++++++++++++++++------------
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index cd511ac..2c6037b 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -61,6 +61,7 @@ type iscsiConnection struct {
 	txIOState int
 	refcount  int
 	conn      net.Conn
+	hostIP    string
 
 	rxBuffer []byte
 	txBuffer []byte
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 30f4ee3..de6e1db 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -21,7 +21,6 @@ import (
 	"net"
 	"os"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 
@@ -47,7 +46,9 @@ const (
 var (
 	EnableStats   bool
 	CurrentHostIP string
-	IPMutex       sync.Mutex
+	// connections of each host
+	hostConnections = map[string]int{}
+	IPMutex         sync.Mutex
 )
 
 type ISCSITargetDriver struct {
@@ -233,25 +234,28 @@ func (s *ISCSITargetDriver) Run(port int) error {
 			continue
 		}
 
-		remoteIP := strings.Split(conn.RemoteAddr().String(), ":")[0]
+		remoteIP := hostIP(conn)
 
 		IPMutex.Lock()
 		if CurrentHostIP == "" {
 			CurrentHostIP = remoteIP
 		}
-		IPMutex.Unlock()
 
 		if s.blockMultipleHostLogin && remoteIP != CurrentHostIP {
 			conn.Close()
 			log.Infof("rejecting connection: %s target already connected at %s",
 				remoteIP, CurrentHostIP)
+			IPMutex.Unlock()
 			continue
 		}
+		hostConnections[remoteIP]++
+		IPMutex.Unlock()
 
 		log.Info("connection establishing at: ", conn.LocalAddr().String())
 		s.setClientStatus(true)
 
 		iscsiConn := &iscsiConnection{conn: conn,
+			hostIP:     remoteIP,
 			loginParam: &iscsiLoginParam{}}
 
 		iscsiConn.init()
@@ -325,12 +329,33 @@ func (s *ISCSITargetDriver) closeConnection(conn *iscsiConnection) {
 	if sess := conn.session; sess != nil && sess.RemoveConnection(conn) {
 		s.UnBindISCSISession(sess)
 	}
+	releaseHost(conn)
+}
+
+// hostIP is the address of the host at the other end, without its port
+func hostIP(conn net.Conn) string {
+	addr := conn.RemoteAddr().String()
+	if ip, _, err := net.SplitHostPort(addr); err == nil {
+		return ip
+	}
+	return addr
+}
+
+// releaseHost lets another host log in, if this is the last connection of the current one
+func releaseHost(conn *iscsiConnection) {
 	IPMutex.Lock()
-	remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-	if CurrentHostIP == remoteIP {
-		CurrentHostIP = ""
+	defer IPMutex.Unlock()
+	if conn.hostIP == "" {
+		return
+	}
+	hostConnections[conn.hostIP]--
+	if hostConnections[conn.hostIP] <= 0 {
+		delete(hostConnections, conn.hostIP)
+		if CurrentHostIP == conn.hostIP {
+			CurrentHostIP = ""
+		}
 	}
-	IPMutex.Unlock()
+	conn.hostIP = ""
 }
 
 func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
@@ -621,12 +646,7 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
 	}
-	IPMutex.Lock()
-	remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-	if CurrentHostIP == remoteIP {
-		CurrentHostIP = ""
-	}
-	IPMutex.Unlock()
+	releaseHost(conn)
 	// once the response is sent
 	conn.state = CONN_STATE_EXIT
 	return nil
-- 
2.43.0


From 91cfbc652238e2f216f0d438f99809b43610a1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 41/49] fix: reservations are checked and changed without other
 commands in between

---
 pkg/scsi/lun.go       | 15 +++++++++++++++
 pkg/scsi/scsi_pr.go   |  6 ++++++
 pkg/scsi/scsilumap.go |  2 ++
 pkg/scsi/target.go    |  4 ++++
 4 files changed, 27 insertions(+)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index f5bea14..75058e2 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -91,6 +91,15 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 		// TODO host := cmd.ITNexus.Host
 		host := 0
 		cmd.State = api.SCSICommandProcessed
+		reservationMutex.Lock()
+		locked := true
+		unlock := func() {
+			if locked {
+				locked = false
+				reservationMutex.Unlock()
+			}
+		}
+		defer unlock()
 		switch api.SCSICommandType(op) {
 		case api.INQUIRY, api.REPORT_LUNS, api.REQUEST_SENSE, api.RELEASE, api.READ_CAPACITY:
 			// served whoever holds the logical unit
@@ -102,6 +111,12 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 				return api.SAMStatReservationConflict
 			}
 		}
+		switch api.SCSICommandType(op) {
+		case api.RESERVE, api.RELEASE, api.PERSISTENT_RESERVE_IN, api.PERSISTENT_RESERVE_OUT:
+			// no other command gets in between
+		default:
+			unlock()
+		}
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	return api.SAMStatGood
diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index 9383677..f5dd531 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -17,6 +17,8 @@ limitations under the License.
 package scsi
 
 import (
+	"sync"
+
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/satori/go.uuid"
 )
@@ -41,6 +43,10 @@ type SCSIReservationOperator interface {
 	Save(tgtName string, devUUID uint64) bool
 }
 
+// reservationMutex guards the reservations of all the logical units, those of
+// the operator and those of RESERVE commands
+var reservationMutex sync.Mutex
+
 var onePROperator SCSIReservationOperator
 
 func GetSCSIReservationOperator() SCSIReservationOperator {
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index bb84a15..2d8be50 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -120,6 +120,8 @@ func AddLUNMapping(m LUNMapping) error {
 	}
 	mappingLUN(m)
 	// Init SCSISimpleReservationOperator
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	op := GetSCSIReservationOperator()
 	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
 		simpleOp.InitLUReservation(m.TargetName, m.DeviceID)
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 2acaa4f..758b5c8 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -102,6 +102,8 @@ func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 
 func loseITNexus(target *api.SCSITarget, id uuid.UUID) {
 	delete(target.ITNexus, id)
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	for _, lu := range target.Devices {
 		if lu != nil {
 			deviceRelease(lu, id, false)
@@ -132,6 +134,8 @@ func ResetLogicalUnit(target *api.SCSITarget, lun [8]uint8) bool {
 	if lu == nil {
 		return false
 	}
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	deviceRelease(lu, uuid.Nil, true)
 	return true
 }
-- 
2.43.0


From a51869ed17c63ca0391766cebb85428efae352e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 42/49] fix: ORWRITE and WRITE AND VERIFY are not disturbed by
 other writes

---
 pkg/api/types.go         |  2 ++
 pkg/scsi/backingstore.go | 10 ++++++++++
 pkg/scsi/sbc.go          |  2 ++
 3 files changed, 14 insertions(+)

diff --git a/pkg/api/types.go b/pkg/api/types.go
index c3abe3a..67aa130 100644
--- a/pkg/api/types.go
+++ b/pkg/api/types.go
@@ -400,6 +400,8 @@ type SCSILu struct {
 	SCSIVendorID        string
 	SCSIProductID       string
 	SCSIID              string
+	// held for writing by commands which both read and write the medium
+	MediumMutex sync.RWMutex
 
 	PerformCommand CommandFunc
 	FinishCommand  func(*SCSITarget, *SCSICommand)
diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 05847d8..c43bde4 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -73,6 +73,16 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		}
 	}
 
+	switch opcode {
+	case api.ORWRITE_16, api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
+		// no other command writes between what these read and write
+		lu.MediumMutex.Lock()
+		defer lu.MediumMutex.Unlock()
+	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16, api.WRITE_SAME, api.WRITE_SAME_16:
+		lu.MediumMutex.RLock()
+		defer lu.MediumMutex.RUnlock()
+	}
+
 	key = HARDWARE_ERROR
 	asc = ASC_INTERNAL_TGT_FAILURE
 	switch opcode {
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 221d269..58f97dc 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -352,6 +352,8 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatGood
 	}
 
+	cmd.Device.MediumMutex.RLock()
+	defer cmd.Device.MediumMutex.RUnlock()
 	if err := cmd.Device.Storage.Unmap(blockDescs); err != nil {
 		BuildSenseData(cmd, MEDIUM_ERROR, NO_ADDITIONAL_SENSE)
 		return api.SAMStatCheckCondition
-- 
2.43.0


From d6a00d20a73a98df939486568947a1a8b5f8eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 43/49] fix: count the commands of a discovery session

ExpCmdSN stayed at the number of the login in every response of a discovery
session, and MaxCmdSN with it: an initiator ran out of its command window.
---
 pkg/port/iscsit/iscsid.go  |  6 +++++-
 pkg/port/iscsit/session.go | 17 ++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index de6e1db..eac67d9 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -488,6 +488,10 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			conn.state = CONN_STATE_CLOSE
 			return
 		}
+		if conn.state == CONN_STATE_FULL && conn.req.numbered() {
+			// the requests of a discovery session are executed as they come
+			conn.session.ExpCmdSN = conn.req.CmdSN + 1
+		}
 		switch conn.req.OpCode {
 		case OpLoginReq:
 			log.Debug("OpLoginReq")
@@ -704,7 +708,7 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		MaxCmdSN: cmd.CmdSN,
 	}
 	conn.statSN++
-	if conn.state == CONN_STATE_SCSI {
+	if conn.session != nil {
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
 	}
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index baddcc3..5d1fc5a 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -345,17 +345,20 @@ func (sess *ISCSISession) abortTasks(lun [8]uint8) {
 	sess.PendingTasks = tasks
 }
 
+// numbered tells whether a request takes a command sequence number
+func (cmd *ISCSICommand) numbered() bool {
+	switch cmd.OpCode {
+	case OpNoopOut, OpSCSICmd, OpSCSITaskReq, OpLoginReq, OpTextReq, OpLogoutReq:
+		return !cmd.Immediate
+	}
+	return false
+}
+
 // order puts a command in its place among the others of the session. It tells
 // whether to go on with the command now: one which is ahead of its turn is kept
 // for later, and one from outside of the command window is ignored.
 func (sess *ISCSISession) order(cmd *ISCSICommand) bool {
-	if cmd.Immediate {
-		return true
-	}
-	switch cmd.OpCode {
-	case OpNoopOut, OpSCSICmd, OpSCSITaskReq, OpLoginReq, OpTextReq, OpLogoutReq:
-	default:
-		// it has no number
+	if !cmd.numbered() {
 		return true
 	}
 	// serial number arithmetic
-- 
2.43.0


From 3b10518b17b977d2a2053b8c3c61e7b8c8fa56e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 44/49] fix: guard the LUN map against changes while it is used

AddLUNMapping, DelLUNMapping and RereadTargetLUNMap changed it under the lock
which commands did not take: a concurrent map access ended the process.
---
 pkg/scsi/scsi.go      |  4 +++-
 pkg/scsi/scsilumap.go | 20 ++++++++++++++++++--
 pkg/scsi/spc.go       |  2 ++
 pkg/scsi/target.go    |  6 ++++--
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index f003b18..c37aa30 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -59,6 +59,7 @@ func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
 // Resize resize
 func (s *SCSITargetService) Resize(size uint64) error {
 	s.mutex.Lock()
+	globalSCSILUMap.mutex.RLock()
 	//TODO for multiple LUNs
 	for _, t := range s.Targets {
 		if t.Devices != nil {
@@ -68,6 +69,7 @@ func (s *SCSITargetService) Resize(size uint64) error {
 			}
 		}
 	}
+	globalSCSILUMap.mutex.RUnlock()
 	s.mutex.Unlock()
 	return nil
 }
@@ -108,7 +110,7 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		scmd.OutSDBBuffer = &api.SCSIDataBuffer{}
 	}
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
-	scmd.Device = target.Devices[lun]
+	scmd.Device = targetLU(target, lun)
 
 	log.Debugf("scsi opcode: 0x%x, LUN: %d", int(scmd.SCB[0]), binary.LittleEndian.Uint64(scmd.Lun[:]))
 
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 2d8be50..1ac898c 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -70,6 +70,22 @@ func GetLU(tgtName string, LUN uint64) *api.SCSILu {
 	return lun
 }
 
+// targetLU returns the logical unit which a target has under the number
+func targetLU(target *api.SCSITarget, LUN uint64) *api.SCSILu {
+	globalSCSILUMap.mutex.RLock()
+	defer globalSCSILUMap.mutex.RUnlock()
+
+	return target.Devices[LUN]
+}
+
+// rereadLUNMap gives a target the LUN map of its name
+func rereadLUNMap(target *api.SCSITarget) {
+	globalSCSILUMap.mutex.Lock()
+	defer globalSCSILUMap.mutex.Unlock()
+
+	target.Devices = globalSCSILUMap.TargetsLUNMap[target.Name]
+}
+
 func GetTargetLUNMap(tgtName string) api.LUNMap {
 	globalSCSILUMap.mutex.RLock()
 	defer globalSCSILUMap.mutex.RUnlock()
@@ -113,6 +129,8 @@ func DelBackendStorage(deviceID uint64) {
 }
 
 func AddLUNMapping(m LUNMapping) error {
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	globalSCSILUMap.mutex.Lock()
 	defer globalSCSILUMap.mutex.Unlock()
 	if globalSCSILUMap.AllDevices[m.DeviceID] == nil {
@@ -120,8 +138,6 @@ func AddLUNMapping(m LUNMapping) error {
 	}
 	mappingLUN(m)
 	// Init SCSISimpleReservationOperator
-	reservationMutex.Lock()
-	defer reservationMutex.Unlock()
 	op := GetSCSIReservationOperator()
 	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
 		simpleOp.InitLUReservation(m.TargetName, m.DeviceID)
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index af49eaf..7e48090 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -413,6 +413,8 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
+	globalSCSILUMap.mutex.RLock()
+	defer globalSCSILUMap.mutex.RUnlock()
 	if _, ok := cmd.Target.Devices[0]; !ok {
 		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
 	} else {
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 758b5c8..1319ad7 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -50,7 +50,7 @@ func (s *SCSITargetService) RereadTargetLUNMap() {
 	defer s.mutex.Unlock()
 
 	for _, tgt := range s.Targets {
-		tgt.Devices = GetTargetLUNMap(tgt.Name)
+		rereadLUNMap(tgt)
 	}
 }
 
@@ -104,6 +104,8 @@ func loseITNexus(target *api.SCSITarget, id uuid.UUID) {
 	delete(target.ITNexus, id)
 	reservationMutex.Lock()
 	defer reservationMutex.Unlock()
+	globalSCSILUMap.mutex.RLock()
+	defer globalSCSILUMap.mutex.RUnlock()
 	for _, lu := range target.Devices {
 		if lu != nil {
 			deviceRelease(lu, id, false)
@@ -113,7 +115,7 @@ func loseITNexus(target *api.SCSITarget, id uuid.UUID) {
 
 func findLogicalUnit(target *api.SCSITarget, lun [8]uint8) *api.SCSILu {
 	number := binary.LittleEndian.Uint64(lun[:])
-	if lu := target.Devices[number]; lu != nil {
+	if lu := targetLU(target, number); lu != nil {
 		return lu
 	}
 	if number == 0 {
-- 
2.43.0


From 52eacc8688f926eeaaaae2d226e48e78a12c86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 45/49] fix: REPORT SUPPORTED OPERATION CODES lists only some
 of them, timeouts descriptor without its length

---
 pkg/scsi/spc.go | 58 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 7e48090..b17cba3 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -676,34 +676,72 @@ func getSCSICmdSize(opcode api.SCSICommandType) byte {
 	return scsi_command_size[(byte(opcode)>>5)&7]
 }
 
+type supportedOperation struct {
+	opcode           api.SCSICommandType
+	serviceAction    uint8
+	hasServiceAction bool
+}
+
+// supportedOperations are those which a device has other than SPCIllegalOp for
+func supportedOperations(dev *api.SCSILu) []supportedOperation {
+	ops := []supportedOperation{}
+	for _, i := range []api.SCSICommandType{
+		api.TEST_UNIT_READY, api.REQUEST_SENSE, api.FORMAT_UNIT, api.READ_6, api.WRITE_6, api.INQUIRY,
+		api.MODE_SELECT, api.RESERVE, api.RELEASE, api.MODE_SENSE, api.START_STOP, api.SEND_DIAGNOSTIC,
+		api.ALLOW_MEDIUM_REMOVAL, api.READ_CAPACITY, api.READ_10, api.WRITE_10, api.WRITE_VERIFY,
+		api.VERIFY_10, api.PRE_FETCH_10, api.SYNCHRONIZE_CACHE, api.WRITE_SAME, api.UNMAP,
+		api.MODE_SELECT_10, api.MODE_SENSE_10, api.READ_16, api.WRITE_16, api.WRITE_VERIFY_16,
+		api.VERIFY_16, api.PRE_FETCH_16, api.SYNCHRONIZE_CACHE_16, api.WRITE_SAME_16, api.REPORT_LUNS,
+		api.READ_12, api.WRITE_12, api.WRITE_VERIFY_12, api.VERIFY_12,
+	} {
+		ops = append(ops, supportedOperation{opcode: i})
+	}
+	if EnableORWrite16 {
+		ops = append(ops, supportedOperation{opcode: api.ORWRITE_16})
+	}
+	for _, sa := range []api.SCSICommandType{api.SAI_READ_CAPACITY_16, api.SAI_GET_LBA_STATUS} {
+		ops = append(ops, supportedOperation{api.SERVICE_ACTION_IN, uint8(sa), true})
+	}
+	for _, i := range []api.SCSICommandType{api.PERSISTENT_RESERVE_IN, api.PERSISTENT_RESERVE_OUT, api.MAINT_PROTOCOL_IN} {
+		fn := dev.DeviceProtocol.PerformCommand(int(i)).(SCSIDeviceOperation)
+		for _, sa := range fn.ServiceAction {
+			ops = append(ops, supportedOperation{i, sa.ServiceAction, true})
+		}
+	}
+	return ops
+}
+
 func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
 	var (
 		data = []byte{0x00, 0x00, 0x00, 0x00}
 	)
-	for _, i := range []api.SCSICommandType{api.TEST_UNIT_READY, api.WRITE_6, api.INQUIRY, api.READ_CAPACITY, api.WRITE_10, api.WRITE_16, api.REPORT_LUNS, api.WRITE_12, api.UNMAP} {
-		data = append(data, byte(i))
+	for _, i := range supportedOperations(cmd.Device) {
+		data = append(data, byte(i.opcode))
 		// reserved
 		data = append(data, 0x00)
 		// service action
 		data = append(data, 0x00)
-		data = append(data, 0x00)
+		data = append(data, i.serviceAction)
 		// reserved
 		data = append(data, 0x00)
-		// flags : no service action, possibly timeout desc
+		// flags : possibly service action, possibly timeout desc
+		flags := byte(0)
+		if i.hasServiceAction {
+			flags |= 0x01
+		}
 		if rctd != 0 {
-			data = append(data, 0x02)
-		} else {
-			data = append(data, 0x00)
+			flags |= 0x02
 		}
+		data = append(data, flags)
 		// cdb length
-		length := getSCSICmdSize(i)
+		length := getSCSICmdSize(i.opcode)
 		data = append(data, 0)
 		data = append(data, length&0xff)
 		// timeout descriptor
 		if rctd != 0 {
 			// length == 0x0a
-			data[1] = 0x0a
-			for n := 0; n < 12; n++ {
+			data = append(data, 0x00, 0x0a)
+			for n := 0; n < 10; n++ {
 				data = append(data, 0x00)
 			}
 		}
-- 
2.43.0


From a2315efea7c459ea18a014aeccd4ca8df60fe3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 46/49] fix: a read which the backing store cuts short is not
 reported as success

---
 pkg/scsi/backingstore.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index c43bde4..35fa872 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -19,7 +19,6 @@ package scsi
 import (
 	"bytes"
 	"fmt"
-	"io"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -153,7 +152,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			goto sense
 		}
 		rbuf, err = bs.Read(int64(offset), tl)
-		if err != nil && err != io.EOF {
+		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
 			goto sense
-- 
2.43.0


From 8633c30904d5310d87ac85b95abda3dffdbe5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 47/49] fix: no access to the medium of a logical unit which is
 offline

---
 pkg/scsi/sbc.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 58f97dc..0ea3462 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -309,6 +309,11 @@ sense:
 }
 
 func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
+	if !cmd.Device.Attrs.Online {
+		BuildSenseData(cmd, NOT_READY, ASC_MEDIUM_NOT_PRESENT)
+		return api.SAMStatCheckCondition
+	}
+
 	// check ANCHOR
 	if cmd.SCB[1]&0x01 != 0 {
 		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
@@ -391,7 +396,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 		tl     uint32
 		err    error
 	)
-	if dev.Attrs.Removable && !dev.Attrs.Online {
+	if !dev.Attrs.Online {
 		key = NOT_READY
 		asc = ASC_MEDIUM_NOT_PRESENT
 		log.Warnf("sense")
@@ -540,7 +545,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		data   = make([]byte, 8)
 	)
 
-	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
+	if !cmd.Device.Attrs.Online {
 		key = NOT_READY
 		asc = ASC_MEDIUM_NOT_PRESENT
 		goto sense
@@ -586,7 +591,7 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		tl  uint32
 		err error
 	)
-	if dev.Attrs.Removable && !dev.Attrs.Online {
+	if !dev.Attrs.Online {
 		key = NOT_READY
 		asc = ASC_MEDIUM_NOT_PRESENT
 		goto sense
@@ -652,7 +657,7 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 		lbpme            int
 		data             = make([]byte, 32)
 	)
-	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
+	if !cmd.Device.Attrs.Online {
 		BuildSenseData(cmd, NOT_READY, ASC_MEDIUM_NOT_PRESENT)
 		return api.SAMStatCheckCondition
 	}
@@ -677,7 +682,7 @@ func SBCGetLbaStatus(host int, cmd *api.SCSICommand) api.SAMStat {
 		lba uint64
 		tl  uint32
 	)
-	if dev.Attrs.Removable && !dev.Attrs.Online {
+	if !dev.Attrs.Online {
 		key = NOT_READY
 		asc = ASC_MEDIUM_NOT_PRESENT
 		goto sense
@@ -752,6 +757,11 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	dev := cmd.Device
 	blocks := dev.Size >> dev.BlockShift
 
+	if !dev.Attrs.Online {
+		BuildSenseData(cmd, NOT_READY, ASC_MEDIUM_NOT_PRESENT)
+		return api.SAMStatCheckCondition
+	}
+
 	if lba+uint64(tl) < lba || lba+uint64(tl) > blocks || (tl == 0 && lba >= blocks) {
 		log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, blocks)
 		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
-- 
2.43.0


From 5c80a05b588b17058047a81d8c0a3f4c3a312265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 48/49] fix: the list of targets is not disturbed by logins

---
 pkg/scsi/scsi.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index c37aa30..50679cc 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -50,7 +50,24 @@ func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
 	result := []api.SCSITarget{}
 	s.mutex.RLock()
 	for _, t := range s.Targets {
-		result = append(result, *t)
+		// the sessions come and go while the list is in use
+		nexuses := map[uuid.UUID]*api.ITNexus{}
+		t.ITNexusMutex.Lock()
+		for id, itn := range t.ITNexus {
+			nexuses[id] = itn
+		}
+		t.ITNexusMutex.Unlock()
+		result = append(result, api.SCSITarget{
+			Name:             t.Name,
+			TID:              t.TID,
+			LID:              t.LID,
+			State:            t.State,
+			Devices:          t.Devices,
+			LUN0:             t.LUN0,
+			TargetPortGroups: t.TargetPortGroups,
+			SCSITargetDriver: t.SCSITargetDriver,
+			ITNexus:          nexuses,
+		})
 	}
 	s.mutex.RUnlock()
 	return result, nil
-- 
2.43.0


From 339affe0202474acc531f97c612b5f3c13c587b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:07 +0000
Subject: [PATCH 49/49] fix: ejecting the medium of a removable unit takes it
 offline, loading it online

---
 pkg/scsi/spc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index b17cba3..8043994 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -38,7 +38,7 @@ func SPCIllegalOp(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCLuOffline(lu *api.SCSILu) error {
-	lu.Attrs.Online = true
+	lu.Attrs.Online = false
 	return nil
 }
 
@@ -47,7 +47,7 @@ func SPCLuOnline(lu *api.SCSILu) error {
 		return fmt.Errorf("lu prevent removal")
 	}
 
-	lu.Attrs.Online = false
+	lu.Attrs.Online = true
 	return nil
 }
 
-- 
2.43.0

