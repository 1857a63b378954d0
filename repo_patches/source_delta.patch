From 705cba7f3edef6cbfd724d641f700566b77815af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 01/31] fix: ASCII client gave up on every request it had
 written successfully

SendRawFrame closed the port and returned without reading the response when the
write succeeded; the error test after Write was inverted.
---
 client_ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_ascii.go b/client_ascii.go
index f47abea..dfe088a 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -175,7 +175,7 @@ func (sf *ASCIIClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []by
 	sf.Debugf("sending [% x]", aduRequest)
 
 	_, err = sf.port.Write(aduRequest)
-	if err == nil {
+	if err != nil {
 		sf.close()
 		return
 	}
-- 
2.43.0


From 1a05bc93fdaa0fd0309f6b917931e9a7d8ae537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 02/31] fix: ASCII request with 253 data bytes overran the
 frame buffer and panicked

An ASCII ADU is address(1) + PDU(253) + LRC(1) = 255 bytes, which is what the
513 character buffer holds; the limit said 256.
---
 modbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus.go b/modbus.go
index 946798d..ccca52a 100644
--- a/modbus.go
+++ b/modbus.go
@@ -70,7 +70,7 @@ const (
 	rtuAduMaxSize = 256 // address(1) + PDU(253) + crc(2)
 
 	asciiAduMinSize       = 3
-	asciiAduMaxSize       = 256
+	asciiAduMaxSize       = 255 // address(1) + PDU(253) + lrc(1)
 	asciiCharacterMaxSize = 513
 
 	tcpProtocolIdentifier = 0x0000
-- 
2.43.0


From c0f8b7c5286fe2a0df712a3200081f6867692658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:23 +0000
Subject: [PATCH 03/31] fix: short raw request on the RTU client panicked

The expected response length was read from the quantity field without checking
that the request is long enough to have one (and a frame of less than two bytes
has no function code at all).
---
 client_rtu.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index c0501d8..18d193b 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -121,6 +121,10 @@ func (sf *RTUClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 
 // SendRawFrame send Adu frame
 func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
+	if len(aduRequest) < rtuAduMinSize {
+		return nil, fmt.Errorf("modbus: request length '%v' does not meet minimum '%v'", len(aduRequest), rtuAduMinSize)
+	}
+
 	sf.mu.Lock()
 	defer sf.mu.Unlock()
 
@@ -196,6 +200,9 @@ func (sf *RTUClientProvider) calculateDelay(chars int) time.Duration {
 
 func calculateResponseLength(adu []byte) int {
 	length := rtuAduMinSize
+	if len(adu) < rtuAduMinSize+4 { // carries no address and quantity
+		return length
+	}
 	switch adu[1] {
 	case FuncCodeReadDiscreteInputs,
 		FuncCodeReadCoils:
-- 
2.43.0


From dd22e22c7498ae80283ffad0c2b0f4a739e3134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 04/31] fix: RTU client slept up to 98s for a response that
 cannot exist

A raw read request with a quantity beyond the protocol limit made the client
wait, with the port locked, for the transmission time of up to 128 KiB.
---
 client_rtu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index 18d193b..a0ccbf9 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -142,6 +142,9 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 
 	function, functionFail := aduRequest[1], aduRequest[1]|0x80
 	bytesToRead := calculateResponseLength(aduRequest)
+	if bytesToRead > rtuAduMaxSize { // no response is that long, do not wait for it
+		bytesToRead = rtuAduMinSize
+	}
 	time.Sleep(sf.calculateDelay(len(aduRequest) + bytesToRead))
 
 	var n int
-- 
2.43.0


From fbc81d59b6007786690e61c1bfdf6f3b34665eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:04 +0000
Subject: [PATCH 05/31] fix: RTU client cut off a FIFO queue response that
 arrives in pieces

The response length was left undetermined, so only what the first read happened
to return was used. The byte count is within the first four bytes.
---
 client_rtu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index a0ccbf9..03bd665 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -161,6 +161,9 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	case data[1] == function:
 		// if the function is correct
 		// we read the rest of the bytes
+		if function == FuncCodeReadFIFOQueue { // its length is in its byte count
+			bytesToRead = rtuAduMinSize + 2 + int(binary.BigEndian.Uint16(data[2:]))
+		}
 		if n < bytesToRead {
 			if bytesToRead > rtuAduMinSize && bytesToRead <= rtuAduMaxSize {
 				if bytesToRead > n {
-- 
2.43.0


From e0e399974e00217ba446d8f4c70a216e5b48e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:06 +0000
Subject: [PATCH 06/31] fix: read/write multiple registers accepted a response
 of the wrong size

The byte count was compared with the response but not with the quantity asked
for, as every other read does.
---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 5823a4c..90ab84f 100644
--- a/client.go
+++ b/client.go
@@ -500,6 +500,10 @@ func (sf *client) ReadWriteMultipleRegistersBytes(slaveID byte, readAddress, rea
 		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
 	}
+	if uint16(response.Data[0]) != readQuantity*2 {
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match quantity to bytes '%v'",
+			response.Data[0], readQuantity*2)
+	}
 	return response.Data[1:], nil
 }
 
-- 
2.43.0


From f64b31e96fea56e80c2dcf66785cabf53606d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:08 +0000
Subject: [PATCH 07/31] fix: FIFO queue response whose count contradicts its
 size was accepted

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 90ab84f..c6cf833 100644
--- a/client.go
+++ b/client.go
@@ -560,6 +560,9 @@ func (sf *client) ReadFIFOQueue(slaveID byte, address uint16) ([]byte, error) {
 	case int(binary.BigEndian.Uint16(response.Data[2:])) > 31:
 		return nil, fmt.Errorf("modbus: fifo count '%v' is greater than expected '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), 31)
+	case len(response.Data)-4 != int(binary.BigEndian.Uint16(response.Data[2:]))*2:
+		return nil, fmt.Errorf("modbus: response fifo value size '%v' does not twice as fifo count '%v'",
+			len(response.Data)-4, binary.BigEndian.Uint16(response.Data[2:]))
 	}
 	return response.Data[4:], nil
 }
-- 
2.43.0


From ed4a3570ee7e2e03ec06b0eced9f23dccd66d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 08/31] fix: write multiple coils sent surplus value bytes and
 a wrong byte count

A value longer than the quantity needs is allowed, but all of it was sent, with
a byte count that contradicts the quantity.
---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c6cf833..9a382f9 100644
--- a/client.go
+++ b/client.go
@@ -188,7 +188,7 @@ func (sf *client) WriteMultipleCoils(slaveID byte, address, quantity uint16, val
 
 	response, err := sf.Send(slaveID, ProtocolDataUnit{
 		FuncCode: FuncCodeWriteMultipleCoils,
-		Data:     pduDataBlockSuffix(value, address, quantity),
+		Data:     pduDataBlockSuffix(value[:(quantity+7)/8], address, quantity),
 	})
 
 	switch {
-- 
2.43.0


From a7e4c8c175ff2df4249a3917292530db038fceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:41 +0000
Subject: [PATCH 09/31] fix: mask write used the address as an index into the
 holding registers

With a bank that does not start at 0 it changed another register, or panicked
with the node's lock held.
---
 register.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/register.go b/register.go
index 6bed37c..acb5546 100644
--- a/register.go
+++ b/register.go
@@ -394,8 +394,9 @@ func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
 		((address + 1) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
-		sf.holding[address] &= andMask
-		sf.holding[address] |= orMask & ^andMask
+		start := address - sf.holdingAddrStart
+		sf.holding[start] &= andMask
+		sf.holding[start] |= orMask & ^andMask
 		sf.rw.Unlock()
 		return nil
 	}
-- 
2.43.0


From ee2e7f4b0108df7f93a70a8b73e22bb7bf397b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:28 +0000
Subject: [PATCH 10/31] fix: register range checks overflowed 16 bits

address+quantity and start+size were computed in uint16, so a request near the
top of the address space passed the check and panicked with the node's lock
held (the node then blocked for ever), and a bank that ends at 65535 could not
be accessed. Bit quantities above 32767 and values longer than 65535 registers
were truncated likewise.
---
 register.go | 68 +++++++++++++++++++++++------------------------------
 1 file changed, 30 insertions(+), 38 deletions(-)

diff --git a/register.go b/register.go
index acb5546..90c0fd0 100644
--- a/register.go
+++ b/register.go
@@ -84,6 +84,11 @@ func (sf *NodeRegister) HoldingAddrParam() (start, quantity uint16) {
 	return sf.holdingAddrStart, uint16(len(sf.holding))
 }
 
+// inRange 地址与数量是否在起始地址start,数量为size的区域内
+func inRange(address uint16, quality int, start uint16, size int) bool {
+	return address >= start && int(address)+quality <= int(start)+size
+}
+
 // getBits 读取切片的位的值, nBits <= 8, nBits + start <= len(buf)*8
 func getBits(buf []byte, start, nBits uint16) uint8 {
 	byteOffset := start / 8         // 计算字节偏移量
@@ -122,10 +127,9 @@ func setBits(buf []byte, start, nBits uint16, value byte) {
 // WriteCoils 写线圈
 func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+	if len(valBuf)*8 >= int(quality) && inRange(address, int(quality), sf.coilsAddrStart, int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -154,11 +158,10 @@ func (sf *NodeRegister) WriteSingleCoil(address uint16, val bool) error {
 // ReadCoils 读线圈,返回值
 func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
-	if (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+	if inRange(address, int(quality), sf.coilsAddrStart, int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
-		result := make([]byte, 0, (quality+7)/8)
+		nCoils := int(quality)
+		result := make([]byte, 0, (int(quality)+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
 			if nCoils > 8 {
@@ -186,10 +189,9 @@ func (sf *NodeRegister) ReadSingleCoil(address uint16) (bool, error) {
 // WriteDiscretes 写离散量
 func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+	if len(valBuf)*8 >= int(quality) && inRange(address, int(quality), sf.discreteAddrStart, int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -218,11 +220,10 @@ func (sf *NodeRegister) WriteSingleDiscrete(address uint16, val bool) error {
 // ReadDiscretes 读离散量
 func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
-	if (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+	if inRange(address, int(quality), sf.discreteAddrStart, int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
-		result := make([]byte, 0, (quality+7)/8)
+		nCoils := int(quality)
+		result := make([]byte, 0, (int(quality)+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
 			if nCoils > 8 {
@@ -250,9 +251,8 @@ func (sf *NodeRegister) ReadSingleDiscrete(address uint16) (bool, error) {
 // WriteHoldingsBytes 写保持寄存器
 func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf) == int(quality*2) &&
-		(address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+	if len(valBuf) == int(quality)*2 &&
+		inRange(address, int(quality), sf.holdingAddrStart, len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(valBuf)
@@ -269,12 +269,11 @@ func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byt
 
 // WriteHoldings 写保持寄存器
 func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
-	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+	if inRange(address, quality, sf.holdingAddrStart, len(sf.holding)) {
 		start := address - sf.holdingAddrStart
-		end := start + quality
+		end := int(start) + quality
 		copy(sf.holding[start:end], valBuf)
 		sf.rw.Unlock()
 		return nil
@@ -286,8 +285,7 @@ func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
 // ReadHoldingsBytes 读保持寄存器,仅返回寄存器值
 func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
-	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+	if inRange(address, int(quality), sf.holdingAddrStart, len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -305,8 +303,7 @@ func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, erro
 // ReadHoldings 读保持寄存器,仅返回寄存器值
 func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
-	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+	if inRange(address, int(quality), sf.holdingAddrStart, len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -321,9 +318,8 @@ func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error)
 // WriteInputsBytes 写输入寄存器
 func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte) error {
 	sf.rw.Lock()
-	if len(regBuf) == int(quality*2) &&
-		(address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+	if len(regBuf) == int(quality)*2 &&
+		inRange(address, int(quality), sf.inputAddrStart, len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(regBuf)
@@ -340,12 +336,11 @@ func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte)
 
 // WriteInputs 写输入寄存器
 func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
-	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+	if inRange(address, quality, sf.inputAddrStart, len(sf.input)) {
 		start := address - sf.inputAddrStart
-		end := start + quality
+		end := int(start) + quality
 		copy(sf.input[start:end], valBuf)
 		sf.rw.Unlock()
 		return nil
@@ -357,8 +352,7 @@ func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
 // ReadInputsBytes 读输入寄存器
 func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
-	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+	if inRange(address, int(quality), sf.inputAddrStart, len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -376,8 +370,7 @@ func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error)
 // ReadInputs 读输入寄存器
 func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
-	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+	if inRange(address, int(quality), sf.inputAddrStart, len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -392,8 +385,7 @@ func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 // MaskWriteHolding 屏蔽写保持寄存器 (val & andMask) | (orMask & ^andMask)
 func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error {
 	sf.rw.Lock()
-	if (address >= sf.holdingAddrStart) &&
-		((address + 1) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+	if inRange(address, 1, sf.holdingAddrStart, len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		sf.holding[start] &= andMask
 		sf.holding[start] |= orMask & ^andMask
-- 
2.43.0


From ea0f81e185b9fa00d98e8e1b762768543c6048d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:31 +0000
Subject: [PATCH 11/31] fix: read/write multiple registers wrote although it
 answered an exception

The write was carried out before the read address was checked.
---
 function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/function.go b/function.go
index 7cddfd1..42c7a00 100644
--- a/function.go
+++ b/function.go
@@ -318,6 +318,10 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
+	// a request with an illegal read address must not write anything
+	if _, err := reg.ReadHoldingsBytes(readAddress, readCount); err != nil {
+		return nil, err
+	}
 	if err := reg.WriteHoldingsBytes(writeAddress, WriteCount, data[9:]); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 37fa7672a4e46b3c480a88305a8e0a469a1597a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:32 +0000
Subject: [PATCH 12/31] fix: write multiple coils accepted more data than its
 byte count declares

Write multiple registers and read/write multiple registers refuse it.
---
 function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function.go b/function.go
index 42c7a00..b90a52a 100644
--- a/function.go
+++ b/function.go
@@ -186,7 +186,7 @@ func funcWriteMultiCoils(reg *NodeRegister, data []byte) ([]byte, error) {
 	quality := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if quality < WriteBitsQuantityMin || quality > WriteBitsQuantityMax ||
-		byteCnt != byte((quality+7)/8) {
+		byteCnt != byte((quality+7)/8) || len(data) > FuncWriteMultiMinSize+int(byteCnt) {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 	err := reg.WriteCoils(address, quality, data[5:])
-- 
2.43.0


From 321d4eaa66457af2a90467356344920926af6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:24 +0000
Subject: [PATCH 13/31] fix: a request header with an oversized length crashed
 the whole process

The length was used to slice the 260 byte receive buffer without a check, in a
goroutine that does not recover. The session now ends instead.
---
 server_tcp_session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 839275d..8e8d7cb 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -71,6 +71,11 @@ func (sf *ServerSession) running(ctx context.Context) {
 					continue
 				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
+				if length > tcpAduMaxSize {
+					err = fmt.Errorf("modbus: length in request header '%v' must not greater than '%v'",
+						length-tcpHeaderMbapSize+1, tcpAduMaxSize-tcpHeaderMbapSize+1)
+					return
+				}
 				if rdCnt == length {
 					if err = sf.frameHandler(adu[:length]); err != nil {
 						return
-- 
2.43.0


From 669ef268c3c58f6d6bd6db13b3b861f0c8f59d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 14/31] fix: a frame of another protocol desynchronised the
 session for good

Only its 7 byte header was skipped, so its body was taken for the next header.
---
 server_tcp_session.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 8e8d7cb..a55628b 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -65,11 +65,6 @@ func (sf *ServerSession) running(ctx context.Context) {
 			}
 			rdCnt += bytesRead
 			if rdCnt >= length {
-				// check head ProtocolIdentifier
-				if binary.BigEndian.Uint16(adu[2:]) != tcpProtocolIdentifier {
-					rdCnt, length = 0, tcpHeaderMbapSize
-					continue
-				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
 				if length > tcpAduMaxSize {
 					err = fmt.Errorf("modbus: length in request header '%v' must not greater than '%v'",
@@ -77,6 +72,10 @@ func (sf *ServerSession) running(ctx context.Context) {
 					return
 				}
 				if rdCnt == length {
+					// check head ProtocolIdentifier, ignore the whole frame if it is another protocol
+					if binary.BigEndian.Uint16(adu[2:]) != tcpProtocolIdentifier {
+						break
+					}
 					if err = sf.frameHandler(adu[:length]); err != nil {
 						return
 					}
-- 
2.43.0


From 73f0e83d6949c757f0ad6a008c7378495557a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:28 +0000
Subject: [PATCH 15/31] fix: a handler error that is no ExceptionError left the
 request unanswered

The type assertion on the error of a registered function handler panicked; the
client ran into its timeout. It is now answered with server device failure.
---
 server_tcp_session.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index a55628b..fcac797 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -116,7 +116,12 @@ func (sf *ServerSession) frameHandler(requestAdu []byte) error {
 	}
 	if err != nil {
 		funcCode |= 0x80
-		rspPduData = []byte{err.(*ExceptionError).ExceptionCode}
+		exceptionCode := byte(ExceptionCodeServerDeviceFailure)
+		var e *ExceptionError
+		if errors.As(err, &e) {
+			exceptionCode = e.ExceptionCode
+		}
+		rspPduData = []byte{exceptionCode}
 	}
 
 	// prepare responseAdu data,fill it
-- 
2.43.0


From acae90b6379aeb00f7d631124ea84eb8701d35a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:51 +0000
Subject: [PATCH 16/31] fix: closing a server waited for its idle clients to
 time out

A session blocked in a read was not interrupted, so Close of the TCP server
hung for up to the read timeout (60s), and the reverse connecting server kept
serving after its Close.
---
 server_tcp_session.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index fcac797..95b7e41 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -31,6 +31,17 @@ func (sf *ServerSession) running(ctx context.Context) {
 		sf.Debugf("client(%v) -> server(%v) disconnected,cause by %v", sf.conn.RemoteAddr(), sf.conn.LocalAddr(), err)
 	}()
 
+	// interrupt a pending read when the server is closed
+	conn, stopped := sf.conn, make(chan struct{})
+	defer close(stopped)
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = conn.SetReadDeadline(time.Now())
+		case <-stopped:
+		}
+	}()
+
 	raw := make([]byte, tcpAduMaxSize)
 	for {
 		select {
@@ -46,6 +57,10 @@ func (sf *ServerSession) running(ctx context.Context) {
 			if err != nil {
 				return
 			}
+			if ctx.Err() != nil { // closed before the deadline was set
+				err = errors.New("server active close")
+				return
+			}
 			bytesRead, err = io.ReadFull(sf.conn, adu[rdCnt:length])
 			if err != nil {
 				if err != io.EOF && err != io.ErrClosedPipe || strings.Contains(err.Error(), "use of closed network connection") {
-- 
2.43.0


From e751700fa0dc8bbd7e9553ca54392b7e99cfddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:36 +0000
Subject: [PATCH 17/31] fix: a TCP server started again after Close could be
 closed by its predecessor

Close returned once the sessions were done, but ListenAndServe closed whatever
listener the server had when it returned a moment later. Close also could
return while a session was being added. Close now waits for ListenAndServe.
---
 server_tcp.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/server_tcp.go b/server_tcp.go
index 4249550..665f3c1 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -17,7 +17,7 @@ const (
 type TCPServer struct {
 	mu           sync.Mutex
 	listen       net.Listener
-	wg           sync.WaitGroup
+	done         chan struct{} // closed when the server has stopped
 	cancel       context.CancelFunc
 	readTimeout  time.Duration
 	writeTimeout time.Duration
@@ -55,8 +55,11 @@ func (sf *TCPServer) Close() error {
 		sf.cancel()
 		sf.listen = nil
 	}
+	done := sf.done
 	sf.mu.Unlock()
-	sf.wg.Wait()
+	if done != nil {
+		<-done
+	}
 	return nil
 }
 
@@ -69,15 +72,26 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 		return err
 	}
 	ctx, cancel := context.WithCancel(context.Background())
+	var wg sync.WaitGroup
+	done := make(chan struct{})
 	sf.mu.Lock()
 	sf.listen = listen
 	sf.cancel = cancel
+	sf.done = done
 	sf.mu.Unlock()
 
 	sf.Debugf("server started,and listen address: %s", addr)
 	defer func() {
-		sf.Close()
+		sf.mu.Lock()
+		if sf.listen == listen { // it may have been closed already
+			listen.Close()
+			cancel()
+			sf.listen = nil
+		}
+		sf.mu.Unlock()
+		wg.Wait()
 		sf.Debugf("server stopped")
+		close(done)
 	}()
 	var tempDelay = minTempDelay // how long to sleep on accept failure
 
@@ -95,7 +109,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 			return err
 		}
 		tempDelay = minTempDelay
-		sf.wg.Add(1)
+		wg.Add(1)
 		go func() {
 			sess := &ServerSession{
 				conn,
@@ -105,7 +119,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 				sf.logger,
 			}
 			sess.running(ctx)
-			sf.wg.Done()
+			wg.Done()
 		}()
 	}
 }
-- 
2.43.0


From 1196541baf92906e4bbcf33f3231c18849f25262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:04 +0000
Subject: [PATCH 18/31] fix: Close right after Start of the reverse connecting
 server was lost

The cancel function came into being in the background goroutine, so a Close
before that did nothing and the server ran for ever.
---
 server_tcp_special.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 818c9bb..6fac4c1 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -166,21 +166,18 @@ func (sf *TCPServerSpecial) Start() error {
 	if sf.server == nil {
 		return errors.New("empty remote server address,add it first")
 	}
-	go sf.run()
+	sf.rwMux.Lock()
+	if atomic.CompareAndSwapUint32(&sf.status, initial, disconnected) {
+		var ctx context.Context
+		ctx, sf.cancel = context.WithCancel(context.Background())
+		go sf.run(ctx)
+	}
+	sf.rwMux.Unlock()
 	return nil
 }
 
 // 增加间隔
-func (sf *TCPServerSpecial) run() {
-	var ctx context.Context
-
-	sf.rwMux.Lock()
-	if !atomic.CompareAndSwapUint32(&sf.status, initial, disconnected) {
-		sf.rwMux.Unlock()
-		return
-	}
-	ctx, sf.cancel = context.WithCancel(context.Background())
-	sf.rwMux.Unlock()
+func (sf *TCPServerSpecial) run(ctx context.Context) {
 	defer func() {
 		sf.setConnectStatus(initial)
 		sf.Debugf("tcp server special stop!")
-- 
2.43.0


From dd9141cf9189822ee94df078aad07f0dd136c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:04 +0000
Subject: [PATCH 19/31] fix: a connection refused by the on connect handler was
 never closed

The reverse connecting server opened another one at every reconnect interval
and left the previous ones open.
---
 server_tcp_special.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 6fac4c1..5513543 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -204,6 +204,7 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		sf.Debugf("connect success")
 		sf.conn = conn
 		if err := sf.onConnect(sf); err != nil {
+			conn.Close()
 			time.Sleep(sf.reconnectInterval)
 			continue
 		}
-- 
2.43.0


From fe9d4de01ea39c249e8fd0ec2806d0532ed756f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:06 +0000
Subject: [PATCH 20/31] fix: the reverse connecting server reconnected with
 auto reconnect disabled

The setting was only looked at when connecting failed, not when an established
connection was lost or refused by the on connect handler.
---
 server_tcp_special.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 5513543..e43e586 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -205,6 +205,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		sf.conn = conn
 		if err := sf.onConnect(sf); err != nil {
 			conn.Close()
+			if !sf.autoReconnect {
+				return
+			}
 			time.Sleep(sf.reconnectInterval)
 			continue
 		}
@@ -231,6 +234,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		sf.setConnectStatus(disconnected)
 		sf.onConnectionLost(sf)
 		close(stopKeepAlive)
+		if !sf.autoReconnect {
+			return
+		}
 		select {
 		case <-ctx.Done():
 			return
-- 
2.43.0


From 75ce1f32b6ec571acaf0af10301777f1bdee5916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:43 +0000
Subject: [PATCH 21/31] fix: TCP client kept a connection that was broken or
 out of step with its server

After a timeout, a partial response, an illegal length or a response to another
request the connection stayed in use, so every later request read the response
to an earlier one (or the middle of one); after a failed write every later
request failed as well. The next request now uses a new connection.
---
 client_tcp.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client_tcp.go b/client_tcp.go
index 7330b42..f36df02 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -212,6 +212,13 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	if err = sf.connect(); err != nil {
 		return
 	}
+	// after a failure the response, or what is left of it, may still arrive:
+	// drop the connection, it must not be taken for the response to the next request
+	defer func() {
+		if err != nil {
+			_ = sf.close()
+		}
+	}()
 	// Send data
 	sf.Debugf("sending [% x]", aduRequest)
 	// Set write and read timeout
@@ -276,6 +283,9 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 		return
 	}
 	aduResponse = data[:length]
+	if len(aduRequest) >= 2 && (aduRequest[0] != aduResponse[0] || aduRequest[1] != aduResponse[1]) {
+		_ = sf.close() // out of step, the same holds
+	}
 	sf.Debugf("received [% x]", aduResponse)
 	return aduResponse, nil
 }
-- 
2.43.0


From abdc79d075dca086290e5f44278845efacee602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 22/31] fix: RTU client span for ever when its serial port went
 away

A hung up port reads zero bytes without an error, over and over, so a request
never returned and kept the port locked.
---
 client_rtu.go |  7 ++++---
 serial.go     | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/client_rtu.go b/client_rtu.go
index 03bd665..f9b0eac 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -150,9 +150,10 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	var n int
 	var n1 int
 	var data [rtuAduMaxSize]byte
+	port := portReader{sf.port}
 	// We first read the minimum length and then read either the full package
 	// or the error package, depending on the error status (byte 2 of the response)
-	n, err = io.ReadAtLeast(sf.port, data[:], rtuAduMinSize)
+	n, err = io.ReadAtLeast(port, data[:], rtuAduMinSize)
 	if err != nil {
 		return
 	}
@@ -167,7 +168,7 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 		if n < bytesToRead {
 			if bytesToRead > rtuAduMinSize && bytesToRead <= rtuAduMaxSize {
 				if bytesToRead > n {
-					n1, err = io.ReadFull(sf.port, data[n:bytesToRead])
+					n1, err = io.ReadFull(port, data[n:bytesToRead])
 					n += n1
 				}
 			}
@@ -175,7 +176,7 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	case data[1] == functionFail:
 		// for error we need to read 5 bytes
 		if n < rtuExceptionSize {
-			n1, err = io.ReadFull(sf.port, data[n:rtuExceptionSize])
+			n1, err = io.ReadFull(port, data[n:rtuExceptionSize])
 		}
 		n += n1
 	default:
diff --git a/serial.go b/serial.go
index 5ae500f..2f2f4c5 100644
--- a/serial.go
+++ b/serial.go
@@ -19,6 +19,21 @@ type serialPort struct {
 	port io.ReadWriteCloser
 }
 
+// portReader reports a port which is gone as io.EOF,
+// the port itself then reads nothing without an error, for ever.
+type portReader struct {
+	io.Reader
+}
+
+// Read implements io.Reader.
+func (sf portReader) Read(b []byte) (n int, err error) {
+	n, err = sf.Reader.Read(b)
+	if n == 0 && err == nil && len(b) > 0 {
+		err = io.EOF
+	}
+	return n, err
+}
+
 // Connect try to connect the remote server
 func (sf *serialPort) Connect() (err error) {
 	sf.mu.Lock()
-- 
2.43.0


From 9f15452e84a156f411fef2d3ccde4d67c961d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 23/31] fix: serial client providers ignored their documented
 default configuration

Without WithSerialConfig there was no port name, even parity and above all
no timeout, so a call that got no answer never returned.
---
 client_ascii.go |  5 +++--
 client_rtu.go   |  5 +++--
 serial.go       | 13 +++++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/client_ascii.go b/client_ascii.go
index dfe088a..6003749 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -29,8 +29,9 @@ var asciiPool = newPool(asciiCharacterMaxSize)
 // it will use default /dev/ttyS0 19200 8 1 N and timeout 1000.
 func NewASCIIClientProvider(opts ...ClientProviderOption) *ASCIIClientProvider {
 	p := &ASCIIClientProvider{
-		logger: newLogger("modbusASCIIMaster => "),
-		pool:   asciiPool,
+		serialPort: serialPort{Config: defaultSerialConfig()},
+		logger:     newLogger("modbusASCIIMaster => "),
+		pool:       asciiPool,
 	}
 	for _, opt := range opts {
 		opt(p)
diff --git a/client_rtu.go b/client_rtu.go
index f9b0eac..2297242 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -28,8 +28,9 @@ var rtuPool = newPool(rtuAduMaxSize)
 // it will use default /dev/ttyS0 19200 8 1 N and timeout 1000
 func NewRTUClientProvider(opts ...ClientProviderOption) *RTUClientProvider {
 	p := &RTUClientProvider{
-		logger: newLogger("modbusRTUMaster => "),
-		pool:   rtuPool,
+		serialPort: serialPort{Config: defaultSerialConfig()},
+		logger:     newLogger("modbusRTUMaster => "),
+		pool:       rtuPool,
 	}
 	for _, opt := range opts {
 		opt(p)
diff --git a/serial.go b/serial.go
index 2f2f4c5..088e908 100644
--- a/serial.go
+++ b/serial.go
@@ -19,6 +19,19 @@ type serialPort struct {
 	port io.ReadWriteCloser
 }
 
+// defaultSerialConfig is used by the serial clients if no other is set:
+// /dev/ttyS0 19200 8 1 N and timeout 1000
+func defaultSerialConfig() serial.Config {
+	return serial.Config{
+		Address:  "/dev/ttyS0",
+		BaudRate: 19200,
+		DataBits: 8,
+		StopBits: 1,
+		Parity:   "N",
+		Timeout:  SerialDefaultTimeout,
+	}
+}
+
 // portReader reports a port which is gone as io.EOF,
 // the port itself then reads nothing without an error, for ever.
 type portReader struct {
-- 
2.43.0


From 0f6fc1bc4dd3eb008416f8900a5db3cbff4c36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:15 +0000
Subject: [PATCH 24/31] fix: TCP client kept a connection after a response from
 another unit or without data

A response that has the right transaction id but another unit or protocol id, no
data or another function is as much a sign of a connection out of step as one
with another transaction id: what is left of it was read as the beginning of the
next responses, for as long as the bytes happened to look like them.
---
 client_tcp.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/client_tcp.go b/client_tcp.go
index f36df02..f186e4e 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -1,6 +1,7 @@
 package modbus
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -204,6 +205,21 @@ func (sf *TCPClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 	return rspPdu, nil
 }
 
+// answers returns whether the frame is a response to the request,
+// as far as a request shorter than a frame tells.
+func answers(aduRequest, aduResponse []byte) bool {
+	if len(aduRequest) < 2 || !bytes.Equal(aduRequest[:2], aduResponse[:2]) { // transaction id
+		return len(aduRequest) < 2
+	}
+	if len(aduRequest) < tcpAduMinSize {
+		return true
+	}
+	return bytes.Equal(aduRequest[2:4], aduResponse[2:4]) && // protocol id
+		aduRequest[6] == aduResponse[6] && // unit id
+		len(aduResponse) > tcpAduMinSize && // with data
+		(aduResponse[7] == aduRequest[7] || aduResponse[7] == aduRequest[7]|0x80)
+}
+
 // SendRawFrame send raw adu request frame
 func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
 	sf.mu.Lock()
@@ -283,7 +299,7 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 		return
 	}
 	aduResponse = data[:length]
-	if len(aduRequest) >= 2 && (aduRequest[0] != aduResponse[0] || aduRequest[1] != aduResponse[1]) {
+	if !answers(aduRequest, aduResponse) {
 		_ = sf.close() // out of step, the same holds
 	}
 	sf.Debugf("received [% x]", aduResponse)
-- 
2.43.0


From 531415d5dfaf2d5c5bac11973e3f31ad05f42f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:37 +0000
Subject: [PATCH 25/31] fix: remote server address without a host did not use
 the default host when a scheme was given

---
 server_tcp_special.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index e43e586..a555e08 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -157,6 +157,9 @@ func (sf *TCPServerSpecial) AddRemoteServer(server string) error {
 	if err != nil {
 		return err
 	}
+	if strings.HasPrefix(remoteURL.Host, ":") {
+		remoteURL.Host = "127.0.0.1" + remoteURL.Host
+	}
 	sf.server = remoteURL
 	return nil
 }
-- 
2.43.0


From 529754e5c4e717c19e479862a93b51fb62f22d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 26/31] fix: LogMode did not reach the open connections of a
 TCP server and raced with logging

---
 log.go                | 4 ++--
 server_tcp.go         | 2 +-
 server_tcp_session.go | 2 +-
 server_tcp_special.go | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/log.go b/log.go
index 7a52e22..946c81d 100644
--- a/log.go
+++ b/log.go
@@ -40,14 +40,14 @@ func (sf *logger) setLogProvider(p LogProvider) {
 }
 
 // Error Log ERROR level message.
-func (sf logger) Errorf(format string, v ...interface{}) {
+func (sf *logger) Errorf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Errorf(format, v...)
 	}
 }
 
 // Debug Log DEBUG level message.
-func (sf logger) Debugf(format string, v ...interface{}) {
+func (sf *logger) Debugf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Debugf(format, v...)
 	}
diff --git a/server_tcp.go b/server_tcp.go
index 665f3c1..d594a8e 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -116,7 +116,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 				sf.readTimeout,
 				sf.writeTimeout,
 				sf.serverCommon,
-				sf.logger,
+				&sf.logger,
 			}
 			sess.running(ctx)
 			wg.Done()
diff --git a/server_tcp_session.go b/server_tcp_session.go
index 95b7e41..afb62dc 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -17,7 +17,7 @@ type ServerSession struct {
 	readTimeout  time.Duration
 	writeTimeout time.Duration
 	*serverCommon
-	logger
+	*logger
 }
 
 // handler net conn
diff --git a/server_tcp_special.go b/server_tcp_special.go
index a555e08..213f269 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -55,12 +55,13 @@ type TCPServerSpecial struct {
 
 // NewTCPServerSpecial new tcp server special, default enable auto reconnect
 func NewTCPServerSpecial() *TCPServerSpecial {
+	log := newLogger("modbusTCPServerSpec => ")
 	return &TCPServerSpecial{
 		ServerSession: ServerSession{
 			readTimeout:  TCPDefaultReadTimeout,
 			writeTimeout: TCPDefaultWriteTimeout,
 			serverCommon: newServerCommon(),
-			logger:       newLogger("modbusTCPServerSpec => "),
+			logger:       &log,
 		},
 		autoReconnect:     true,
 		enableKeepAlive:   false,
-- 
2.43.0


From 2b7275c2369ed7b1390e0a0586ffdc134e5e45bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:28 +0000
Subject: [PATCH 27/31] fix: Close missed a TCP server that had just begun to
 accept connections

---
 server_tcp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server_tcp.go b/server_tcp.go
index d594a8e..35ecaac 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -67,14 +67,15 @@ const minTempDelay = 5 * time.Millisecond
 
 // ListenAndServe listen and server
 func (sf *TCPServer) ListenAndServe(addr string) error {
+	sf.mu.Lock() // Close must find the server once it accepts connections
 	listen, err := net.Listen("tcp", addr)
 	if err != nil {
+		sf.mu.Unlock()
 		return err
 	}
 	ctx, cancel := context.WithCancel(context.Background())
 	var wg sync.WaitGroup
 	done := make(chan struct{})
-	sf.mu.Lock()
 	sf.listen = listen
 	sf.cancel = cancel
 	sf.done = done
-- 
2.43.0


From 193a46618499d66464623afdd1c8e11338dc31f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 28/31] fix: Start right after Close of the reverse-connecting
 server was lost, and waits were not ended by Close

---
 server_tcp_special.go | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 213f269..c23c0eb 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -51,6 +51,8 @@ type TCPServerSpecial struct {
 	onConnectionLost  OnConnectionLostHandler // 失连回调
 	onKeepAlive       OnKeepAliveHandler      // 保活函数
 	cancel            context.CancelFunc      // cancel
+	closed            bool                    // Close called since the last Start
+	done              chan struct{}           // closed when the last run has ended
 }
 
 // NewTCPServerSpecial new tcp server special, default enable auto reconnect
@@ -171,19 +173,41 @@ func (sf *TCPServerSpecial) Start() error {
 		return errors.New("empty remote server address,add it first")
 	}
 	sf.rwMux.Lock()
-	if atomic.CompareAndSwapUint32(&sf.status, initial, disconnected) {
+	if atomic.CompareAndSwapUint32(&sf.status, initial, disconnected) || sf.closed {
 		var ctx context.Context
 		ctx, sf.cancel = context.WithCancel(context.Background())
-		go sf.run(ctx)
+		prev, done := sf.done, make(chan struct{})
+		sf.closed, sf.done = false, done
+		go func() {
+			if prev != nil { // closed, but not at its end yet
+				<-prev
+			}
+			sf.run(ctx, done)
+			close(done)
+		}()
 	}
 	sf.rwMux.Unlock()
 	return nil
 }
 
+// wait for the interval, unless the server is closed
+func (sf *TCPServerSpecial) wait(ctx context.Context, interval time.Duration) {
+	timer := time.NewTimer(interval)
+	defer timer.Stop()
+	select {
+	case <-ctx.Done():
+	case <-timer.C:
+	}
+}
+
 // 增加间隔
-func (sf *TCPServerSpecial) run(ctx context.Context) {
+func (sf *TCPServerSpecial) run(ctx context.Context, done chan struct{}) {
 	defer func() {
-		sf.setConnectStatus(initial)
+		sf.rwMux.Lock()
+		if sf.done == done { // not started again
+			atomic.StoreUint32(&sf.status, initial)
+		}
+		sf.rwMux.Unlock()
 		sf.Debugf("tcp server special stop!")
 	}()
 	sf.Debugf("tcp server special start!")
@@ -202,7 +226,7 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 			if !sf.autoReconnect {
 				return
 			}
-			time.Sleep(sf.reconnectInterval)
+			sf.wait(ctx, sf.reconnectInterval)
 			continue
 		}
 		sf.Debugf("connect success")
@@ -212,7 +236,7 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 			if !sf.autoReconnect {
 				return
 			}
-			time.Sleep(sf.reconnectInterval)
+			sf.wait(ctx, sf.reconnectInterval)
 			continue
 		}
 
@@ -246,7 +270,7 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 			return
 		default:
 			// 随机500ms-1s的重试，避免快速重试造成服务器许多无效连接
-			time.Sleep(time.Millisecond * time.Duration(500+rand.Intn(500)))
+			sf.wait(ctx, time.Millisecond*time.Duration(500+rand.Intn(500)))
 		}
 	}
 }
@@ -267,6 +291,7 @@ func (sf *TCPServerSpecial) Close() error {
 	if sf.cancel != nil {
 		sf.cancel()
 	}
+	sf.closed = true
 	sf.rwMux.Unlock()
 	return nil
 }
-- 
2.43.0


From 4f30a87f238416110ded442d7731789f569431a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 29/31] fix: keep-alive handler was called while the
 connection-lost handler ran

---
 server_tcp_special.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index c23c0eb..df862f6 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -259,9 +259,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context, done chan struct{}) {
 		}
 		sf.setConnectStatus(connected)
 		sf.running(ctx)
+		close(stopKeepAlive)
 		sf.setConnectStatus(disconnected)
 		sf.onConnectionLost(sf)
-		close(stopKeepAlive)
 		if !sf.autoReconnect {
 			return
 		}
-- 
2.43.0


From 564a9bd30d1e32e42444c472966df5cf05538414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:35 +0000
Subject: [PATCH 30/31] fix: registering a function handler, or adding a unit
 whose address is set, raced with a running server

---
 function.go           | 13 ++++++++++++-
 server_tcp_session.go |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/function.go b/function.go
index b90a52a..d4f5b1d 100644
--- a/function.go
+++ b/function.go
@@ -21,6 +21,7 @@ type FunctionHandler func(reg *NodeRegister, data []byte) ([]byte, error)
 
 type serverCommon struct {
 	node     sync.Map
+	funcMu   sync.RWMutex // protects function
 	function map[uint8]FunctionHandler
 }
 
@@ -44,7 +45,7 @@ func newServerCommon() *serverCommon {
 // AddNodes 增加节点.
 func (sf *serverCommon) AddNodes(nodes ...*NodeRegister) {
 	for _, v := range nodes {
-		sf.node.Store(v.slaveID, v)
+		sf.node.Store(v.SlaveID(), v)
 	}
 }
 
@@ -90,10 +91,20 @@ func (sf *serverCommon) Range(f func(slaveID byte, node *NodeRegister) bool) {
 // RegisterFunctionHandler 注册回调函数.
 func (sf *serverCommon) RegisterFunctionHandler(funcCode uint8, function FunctionHandler) {
 	if function != nil {
+		sf.funcMu.Lock()
 		sf.function[funcCode] = function
+		sf.funcMu.Unlock()
 	}
 }
 
+// functionHandler 获取功能码对应的回调函数.
+func (sf *serverCommon) functionHandler(funcCode uint8) (FunctionHandler, bool) {
+	sf.funcMu.RLock()
+	handle, ok := sf.function[funcCode]
+	sf.funcMu.RUnlock()
+	return handle, ok
+}
+
 // readBits 读位寄存器.
 func readBits(reg *NodeRegister, data []byte, isCoil bool) ([]byte, error) {
 	var value []byte
diff --git a/server_tcp_session.go b/server_tcp_session.go
index afb62dc..5fbf17b 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -124,7 +124,7 @@ func (sf *ServerSession) frameHandler(requestAdu []byte) error {
 		return nil
 	}
 	var rspPduData []byte
-	if handle, ok := sf.function[funcCode]; ok {
+	if handle, ok := sf.functionHandler(funcCode); ok {
 		rspPduData, err = handle(node, pduData)
 	} else {
 		err = &ExceptionError{ExceptionCodeIllegalFunction}
-- 
2.43.0


From cab359077c8108562e4d396f99ed26dc6c98787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 31/31] fix: read/write multiple registers was not one
 transaction

The write and the read took the lock of the unit one after the other, so the
reply could carry what another request had written in between.
---
 function.go |  9 +--------
 register.go | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/function.go b/function.go
index d4f5b1d..b50e371 100644
--- a/function.go
+++ b/function.go
@@ -329,14 +329,7 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
-	// a request with an illegal read address must not write anything
-	if _, err := reg.ReadHoldingsBytes(readAddress, readCount); err != nil {
-		return nil, err
-	}
-	if err := reg.WriteHoldingsBytes(writeAddress, WriteCount, data[9:]); err != nil {
-		return nil, err
-	}
-	value, err := reg.ReadHoldingsBytes(readAddress, readCount)
+	value, err := reg.readWriteHoldingsBytes(readAddress, readCount, writeAddress, WriteCount, data[9:])
 	if err != nil {
 		return nil, err
 	}
diff --git a/register.go b/register.go
index 90c0fd0..ebeeec0 100644
--- a/register.go
+++ b/register.go
@@ -300,6 +300,28 @@ func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, erro
 	return nil, &ExceptionError{ExceptionCodeIllegalDataAddress}
 }
 
+// readWriteHoldingsBytes 先写后读保持寄存器,其间不受其它操作影响,任一地址无效时不写
+func (sf *NodeRegister) readWriteHoldingsBytes(readAddress, readQuality,
+	writeAddress, writeQuality uint16, valBuf []byte) ([]byte, error) {
+	sf.rw.Lock()
+	defer sf.rw.Unlock()
+	if len(valBuf) != int(writeQuality)*2 ||
+		!inRange(readAddress, int(readQuality), sf.holdingAddrStart, len(sf.holding)) ||
+		!inRange(writeAddress, int(writeQuality), sf.holdingAddrStart, len(sf.holding)) {
+		return nil, &ExceptionError{ExceptionCodeIllegalDataAddress}
+	}
+	write := sf.holding[writeAddress-sf.holdingAddrStart:][:writeQuality]
+	for i := range write {
+		write[i] = binary.BigEndian.Uint16(valBuf[i*2:])
+	}
+	read := sf.holding[readAddress-sf.holdingAddrStart:][:readQuality]
+	result := make([]byte, 0, len(read)*2)
+	for _, v := range read {
+		result = append(result, byte(v>>8), byte(v))
+	}
+	return result, nil
+}
+
 // ReadHoldings 读保持寄存器,仅返回寄存器值
 func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
-- 
2.43.0

