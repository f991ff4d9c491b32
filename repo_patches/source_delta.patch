From e929f19449b2ef88ab67bf6d26246fef9c190d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:48 +0000
Subject: [PATCH 01/32] fix: reject packets with impossible header or body
 lengths instead of panicking

---
 libs/egts/egts_pkg.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index d7c0600..609e137 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -87,12 +88,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить длину секции данных: %v", err)
 	}
 	p.FrameDataLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить идентификатор пакета: %v", err)
 	}
 	p.PacketIdentifier = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -101,13 +102,21 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить тип пакета: %v", err)
 	}
 
+	headerLength := byte(DEFAULT_HEADER_LEN)
 	if p.Route == "1" {
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		headerLength += 5
+	}
+	if p.HeaderLength != headerLength {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
+	if p.Route == "1" {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк отправителя: %v", err)
 		}
 		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк получателя: %v", err)
 		}
 		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -126,7 +135,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 	switch p.PacketType {
@@ -155,12 +164,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[int(p.HeaderLength):int(p.HeaderLength)+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 7e9cdca0d5e5cd0ccd50c6efe854c1444f8c2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 02/32] fix: altitude of a position is three bytes long

---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..1ddd9c4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -119,7 +119,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From a0051c8b4af2810b9ecfff528ce442cd837e7ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:31 +0000
Subject: [PATCH 03/32] fix: reject truncated records and subrecords instead of
 filling the gap with zeros

---
 libs/egts/egts_pt_response.go            |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go | 11 +++++++++--
 libs/egts/egts_sr_module_data.go         |  7 ++++---
 libs/egts/egts_sr_pos_data.go            | 13 +++++++------
 libs/egts/egts_sr_response.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 libs/egts/record_data.go                 |  6 +++++-
 libs/egts/service_data_records.go        | 13 +++++++------
 13 files changed, 72 insertions(+), 50 deletions(-)

diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..e48cdc5 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //PtResponse структура подзаписи типа EGTS_PT_RESPONSE
@@ -21,7 +22,7 @@ func (s *PtResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор пакета из ответа: %v", err)
 	}
 	s.ResponsePacketID = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..be70056 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..b8128d4 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..1549a0f 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,19 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if e.RawDataFlag == "1" {
+		// "сырые" данные имеют переменную длину
+		_, err = buf.Read(bytesTmpBuf)
+	} else {
+		_, err = io.ReadFull(buf, bytesTmpBuf)
+	}
+	if err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_module_data.go b/libs/egts/egts_sr_module_data.go
index 86dc227..ff60c66 100644
--- a/libs/egts/egts_sr_module_data.go
+++ b/libs/egts/egts_sr_module_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 const (
@@ -38,19 +39,19 @@ func (e *SrModuleData) Decode(content []byte) error {
 	e.ModuleType = int8(moduleType)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить ID вендора")
 	}
 	e.VendorID = binary.LittleEndian.Uint32(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию прошивки")
 	}
 	e.FirmwareVersion = binary.LittleEndian.Uint16(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию ПО")
 	}
 	e.SoftwareVersion = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 1ddd9c4..83bf2a4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,14 +46,14 @@ func (e *SrPosData) Decode(content []byte) error {
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 	tmpUint32Buf := make([]byte, 4)
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время навигации: %v", err)
 	}
 	preFieldVal := binary.LittleEndian.Uint32(tmpUint32Buf)
 	e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить широту: %v", err)
 	}
 
@@ -60,7 +61,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Latitude = float64(float64(preFieldVal) * 90 / 0xFFFFFFFF)
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время долгату: %v", err)
 	}
 	preFieldVal = binary.LittleEndian.Uint32(tmpUint32Buf)
@@ -82,7 +83,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	// скорость
 	tmpUint16Buf := make([]byte, 2)
-	if _, err = buf.Read(tmpUint16Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint16Buf); err != nil {
 		return fmt.Errorf("Не удалось получить скорость: %v", err)
 	}
 	spd := binary.LittleEndian.Uint16(tmpUint16Buf)
@@ -103,7 +104,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Direction |= e.DirectionHighestBit << 7
 
 	bytesTmpBuf := make([]byte, 3)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить пройденное расстояние (пробег) в км: %v", err)
 	}
 	bytesTmpBuf = append(bytesTmpBuf, 0x00)
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..31b8921 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrResponse структура подзаписи типа EGTS_SR_RESPONSE, которая применяется для подтверждения
@@ -21,7 +22,7 @@ func (s *SrResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить номер подтверждаемой записи: %v", err)
 	}
 	s.ConfirmedRecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index ad9b33f..19d4acd 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 51ecd9e..8cc04fa 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -31,11 +32,14 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if int(rd.SubrecordLength) > buf.Len() {
+			return fmt.Errorf("Длина подзаписи %d превышает размер оставшихся данных %d", rd.SubrecordLength, buf.Len())
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 60ed468..e0bdaf0 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,12 +46,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	for buf.Len() > 0 {
 		sdr := ServiceDataRecord{}
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить длину записи SDR: %v", err)
 		}
 		sdr.RecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить номер записи SDR: %v", err)
 		}
 		sdr.RecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -69,7 +70,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.ObjectIDFieldExists == "1" {
 			oid := make([]byte, 4)
-			if _, err := buf.Read(oid); err != nil {
+			if _, err := io.ReadFull(buf, oid); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор объекта SDR: %v", err)
 			}
 			sdr.ObjectIdentifier = binary.LittleEndian.Uint32(oid)
@@ -77,7 +78,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.EventIDFieldExists == "1" {
 			event := make([]byte, 4)
-			if _, err := buf.Read(event); err != nil {
+			if _, err := io.ReadFull(buf, event); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор события SDR: %v", err)
 			}
 			sdr.EventIdentifier = binary.LittleEndian.Uint32(event)
@@ -86,7 +87,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 		if sdr.TimeFieldExists == "1" {
 			tm := make([]byte, 4)
-			if _, err := buf.Read(tm); err != nil {
+			if _, err := io.ReadFull(buf, tm); err != nil {
 				return fmt.Errorf("не удалось получить время формирования записи на стороне отправителя SDR: %v", err)
 			}
 			preFieldVal := binary.LittleEndian.Uint32(tm)
@@ -104,7 +105,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
-- 
2.43.0


From a078764576617b9d586455c98ffea4540b7de34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:13 +0000
Subject: [PATCH 04/32] fix: second counter of EGTS_SR_COUNTERS_DATA is decoded
 into its own field

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index b8128d4..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -66,7 +66,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From 67c4d8964b9f1e9847fd3630ed50e875d81b443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:19 +0000
Subject: [PATCH 05/32] fix: analog sensor flags of EGTS_SR_AD_SENSORS_DATA are
 written in wire order

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index be70056..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -235,14 +235,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 02878004ad7dd0a9d3bef80103551f02cba9121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:25 +0000
Subject: [PATCH 06/32] fix: invalid flags of EGTS_SR_TERM_IDENTITY are
 reported by the encoder

---
 libs/egts/egts_sr_term_identity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 19d4acd..b2ec1a9 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -129,6 +129,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
-- 
2.43.0


From d11bd52ee1485d6eaac605179c5fae14aa29607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 07/32] fix: encoder infers the type of module data and
 dispatcher identity subrecords

---
 libs/egts/record_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 8cc04fa..806e6d7 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -111,6 +111,10 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrPosDataType
 			case *SrTermIdentity:
 				rd.SubrecordType = SrTermIdentityType
+			case *SrModuleData:
+				rd.SubrecordType = SrModuleDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			case *SrResponse:
 				rd.SubrecordType = SrRecordResponseType
 			case *SrResultCode:
-- 
2.43.0


From 86bf9090c5f3d1fd4fb92312b9025352870d3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:36 +0000
Subject: [PATCH 08/32] fix: encoder writes the actual section lengths and
 refuses sections over 65535 bytes

---
 libs/egts/egts_pkg.go             |  4 ++++
 libs/egts/record_data.go          | 15 ++++++++-------
 libs/egts/service_data_records.go |  6 ++++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 609e137..a29a7d7 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -241,6 +242,9 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 			}
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Слишком большая секция данных: %d байт", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 806e6d7..ef1abf3 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -146,17 +147,17 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		if rd.SubrecordLength == 0 {
-			rd.SubrecordLength = rd.SubrecordData.Length()
-		}
-		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
-			return result, err
-		}
-
 		srd, err := rd.SubrecordData.Encode()
 		if err != nil {
 			return result, err
 		}
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("Слишком большая подзапись: %d байт", len(srd))
+		}
+		rd.SubrecordLength = uint16(len(srd))
+		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
+			return result, err
+		}
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index e0bdaf0..da11426 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"time"
 )
@@ -135,9 +136,10 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		if sdr.RecordLength == 0 {
-			sdr.RecordLength = uint16(len(rd))
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("слишком большая запись SDR: %d байт", len(rd))
 		}
+		sdr.RecordLength = uint16(len(rd))
 		if err = binary.Write(buf, binary.LittleEndian, sdr.RecordLength); err != nil {
 			return result, fmt.Errorf("не удалось записать длину записи SDR: %v", err)
 		}
-- 
2.43.0


From f740686b6248537faae6905f024d515bff70fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:41 +0000
Subject: [PATCH 09/32] fix: body checksum is verified before the body is used
 and reported with its own code

---
 libs/egts/egts_pkg.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index a29a7d7..1d1c22c 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -150,6 +150,16 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcUnsType, fmt.Errorf("Неизвестный тип пакета: %d", p.PacketType)
 	}
 
+	crcBytes := make([]byte, 2)
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
+		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
+	}
+	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
+
+	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+	}
+
 	if isEncrypted {
 		if secretKey == nil {
 			return egtsPcDecryptError, errSecretKey
@@ -164,15 +174,6 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcDecryptError, err
 	}
 
-	crcBytes := make([]byte, 2)
-	if _, err = io.ReadFull(buf, crcBytes); err != nil {
-		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
-	}
-	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
-
-	if p.ServicesFrameDataCheckSum != crc16(content[int(p.HeaderLength):int(p.HeaderLength)+int(p.FrameDataLength)]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
-	}
 	return egtsPcOk, err
 }
 
-- 
2.43.0


From 9f8994964821667cd531cf4038910bdcc6121561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:47 +0000
Subject: [PATCH 10/32] fix: packets without a body (FDL=0) are accepted

---
 libs/egts/egts_pkg.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 1d1c22c..eab7cea 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -150,14 +150,17 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcUnsType, fmt.Errorf("Неизвестный тип пакета: %d", p.PacketType)
 	}
 
-	crcBytes := make([]byte, 2)
-	if _, err = io.ReadFull(buf, crcBytes); err != nil {
-		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
-	}
-	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
+	// у пакета без тела контрольная сумма тела отсутствует
+	if p.FrameDataLength > 0 {
+		crcBytes := make([]byte, 2)
+		if _, err = io.ReadFull(buf, crcBytes); err != nil {
+			return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
+		}
+		p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
-		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+		if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
+			return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+		}
 	}
 
 	if isEncrypted {
-- 
2.43.0


From 38ebd9c77ed018cf3d15e18e66662890cf32b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:34 +0000
Subject: [PATCH 11/32] fix: length of a received packet does not overflow

---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 49f30c7..d093c83 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -92,8 +92,12 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
-			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			bodyLen := int(binary.LittleEndian.Uint16(headerBuf[5:7]))
+			pkgLen := int(headerBuf[3])
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Некорректная длина заголовка пакета. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
 				pkgLen += bodyLen + 2
 			}
-- 
2.43.0


From cb27248bf377772afae6976915ba311b75a0cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 12/32] fix: idle connections are closed after conn_ttl and
 connections closed by the client at once

---
 cli/receiver/server/server.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index d093c83..50baae3 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -68,6 +68,8 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 	log.WithField("ip", conn.RemoteAddr()).Info("Установлено соединение")
 
+	reader := idleReader{conn: conn, ttl: s.ttl}
+
 	for {
 	Received:
 		serviceType = 0
@@ -75,16 +77,12 @@ func (s *Server) handleConn(conn net.Conn) {
 		srResultCodePkg = nil
 		recvPacket = nil
 
-		connTimer := time.NewTimer(s.ttl)
-
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-		_, err := io.ReadFull(conn, headerBuf)
+		_, err := io.ReadFull(reader, headerBuf)
 
 		switch err {
 		case nil:
-			connTimer.Reset(s.ttl)
-
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
 				log.WithField("ip", conn.RemoteAddr()).Warn("Пакет не соответствует формату ЕГТС. Закрыто соединение")
@@ -103,7 +101,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-			if _, err := io.ReadFull(conn, buf); err != nil {
+			if _, err := io.ReadFull(reader, buf); err != nil {
 				log.WithField("err", err).Error("Ошибка при получении тела пакета")
 				return
 			}
@@ -111,8 +109,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			// формируем полный пакет
 			recvPacket = append(headerBuf, buf...)
 		case io.EOF:
-			<-connTimer.C
-			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+			log.WithField("ip", conn.RemoteAddr()).Info("Соединение закрыто клиентом")
 			return
 		default:
 			log.WithField("err", err).Error("Ошибка при получении")
@@ -300,6 +297,21 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 }
 
+// idleReader читает данные соединения и прерывает чтение, если их нет дольше ttl
+type idleReader struct {
+	conn net.Conn
+	ttl  time.Duration
+}
+
+func (r idleReader) Read(b []byte) (int, error) {
+	if r.ttl > 0 {
+		if err := r.conn.SetReadDeadline(time.Now().Add(r.ttl)); err != nil {
+			return 0, err
+		}
+	}
+	return r.conn.Read(b)
+}
+
 func New(srvAddress string, ttl time.Duration, s *storage.Repository) Server {
 	return Server{
 		addr:  srvAddress,
-- 
2.43.0


From b3e05b53dbca5803fce57bbe906fc2a738f2ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:43 +0000
Subject: [PATCH 13/32] fix: EGTS_SR_RESULT_CODE is sent in an EGTS_PT_APPDATA
 packet

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 50baae3..7afde3d 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -404,7 +404,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From adf1786aab29691dc456b864292e5526fd52676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:48 +0000
Subject: [PATCH 14/32] fix: packet number is assembled from counters 110 and
 111 in either order

---
 cli/receiver/server/server.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 7afde3d..284da65 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -236,18 +236,14 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
-						case 111:
-							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
 							tmpBuf := make([]byte, 4)
-							binary.BigEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							binary.LittleEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							copy(packetIDBytes[:3], tmpBuf)
 
-							if len(packetIDBytes) == 4 {
-								packetIDBytes[3] = tmpBuf[3]
-							} else {
-								packetIDBytes = tmpBuf
-							}
+							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
+						case 111:
+							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
+							packetIDBytes[3] = byte(subRecData.CounterValue)
 
 							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						}
-- 
2.43.0


From f9405f772278c562d611d5a76da189134bc30959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:53 +0000
Subject: [PATCH 15/32] fix: packets containing EGTS_SR_RECORD_RESPONSE are
 processed and confirmed like any other

---
 cli/receiver/server/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 284da65..dd5797e 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -179,7 +179,6 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
 					case *egts.SrPosData:
 						log.Debugf("Разбор подзаписи EGTS_SR_POS_DATA")
 						isPkgSave = true
-- 
2.43.0


From 59c9f996a18d41996e569e72eb7063d66cc742d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:58 +0000
Subject: [PATCH 16/32] fix: records that could not be saved are not confirmed
 as processed

---
 cli/receiver/server/server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index dd5797e..7951b82 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -11,8 +11,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -268,6 +269,10 @@ func (s *Server) handleConn(conn net.Conn) {
 				if isPkgSave {
 					if err := s.store.Save(&exportPacket); err != nil {
 						log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+						srResponsesRecord[len(srResponsesRecord)-1].SubrecordData = &egts.SrResponse{
+							ConfirmedRecordNumber: rec.RecordNumber,
+							RecordStatus:          egtsPcIoError,
+						}
 					}
 				}
 			}
-- 
2.43.0


From 95f880b3301d144095d7f1daa5178b6446e229e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:03 +0000
Subject: [PATCH 17/32] fix: southern and western positions are stored with
 negative coordinates

---
 cli/receiver/server/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 7951b82..943442e 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -188,6 +188,12 @@ func (s *Server) handleConn(conn net.Conn) {
 						exportPacket.ReceivedTimestamp = receivedTimestamp
 						exportPacket.Latitude = subRecData.Latitude
 						exportPacket.Longitude = subRecData.Longitude
+						if subRecData.LAHS == "1" {
+							exportPacket.Latitude = -exportPacket.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							exportPacket.Longitude = -exportPacket.Longitude
+						}
 						exportPacket.Speed = subRecData.Speed
 						exportPacket.Course = subRecData.Direction
 					case *egts.SrExtPosData:
-- 
2.43.0


From 05676555730ae7fde8ee0460c334faf8caf8a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:07 +0000
Subject: [PATCH 18/32] fix: accept loop ends when the server is stopped

---
 cli/receiver/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 943442e..88c63a0 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
 	log "github.com/sirupsen/logrus"
@@ -35,6 +36,9 @@ func (s *Server) Run() {
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := s.l.Accept()
+		if errors.Is(err, net.ErrClosed) {
+			return
+		}
 		if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
-- 
2.43.0


From 58e12ddea3b119c82844677481a201444554d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:12 +0000
Subject: [PATCH 19/32] fix: a failing store does not keep a record from the
 other stores

---
 cli/receiver/storage/store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index aac933e..2ecb7ce 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,13 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var result error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && result == nil {
+			result = err
 		}
 	}
-	return nil
+	return result
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From b0091fdcfe7f7874d0f73e6f89c0c9a57e875020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:33 +0000
Subject: [PATCH 20/32] fix: a stop right after the start is not lost

---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 88c63a0..4099a1c 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -8,6 +8,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"io"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -21,13 +22,16 @@ type Server struct {
 	addr  string
 	ttl   time.Duration
 	store *storage.Repository
+	mu    sync.Mutex // защищает l
 	l     net.Listener
 }
 
 func (s *Server) Run() {
 	var err error
 
+	s.mu.Lock()
 	s.l, err = net.Listen("tcp", s.addr)
+	s.mu.Unlock()
 	if err != nil {
 		log.Fatalf("Не удалось открыть соединение: %v", err)
 	}
@@ -48,6 +52,9 @@ func (s *Server) Run() {
 }
 
 func (s *Server) Stop() error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	if s.l != nil {
 		return s.l.Close()
 	}
-- 
2.43.0


From 608c7b2143a3b3e9acbadba7166bd45380c07b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:19 +0000
Subject: [PATCH 21/32] fix: redis database number defaults to 0 when it is not
 configured

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 70c75b1..b050cf4 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 1596bee0cfdecb0f68c06c580f92fe1e42f018cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:23 +0000
Subject: [PATCH 22/32] fix: postgresql connection parameters may be empty or
 contain spaces and quotes

---
 cli/receiver/storage/store/postgresql/connector.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..e9c260a 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -35,7 +36,8 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		quote(c.config["database"]), quote(c.config["host"]), quote(c.config["port"]), quote(c.config["user"]),
+		quote(c.config["password"]), quote(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
@@ -63,6 +65,11 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	return nil
 }
 
+// quote экранирует значение параметра строки подключения
+func quote(value string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(value) + "'"
+}
+
 func (c *Connector) Close() error {
 	return c.connection.Close()
 }
-- 
2.43.0


From cba42f98adad0b36ef08cac7ac5ce06daf7d0f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:28 +0000
Subject: [PATCH 23/32] fix: rabbitmq credentials may contain characters
 reserved in urls

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..eb663f7 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 )
 
 type Connector struct {
@@ -33,7 +34,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From 0b32333b6f4adb5ca1ca650ed9ef3c27d73a2433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:32 +0000
Subject: [PATCH 24/32] fix: packet generator sends the requested timestamp

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 75f10ca..9bae84e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From b12c7459565d514dbf5fda09bf7a660617296e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:37 +0000
Subject: [PATCH 25/32] fix: packet generator waits for the ack by default

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 9bae84e..66760c3 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 1c59798c7c5a9ab17c6b5edcb1349d2a97860b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:42 +0000
Subject: [PATCH 26/32] fix: packet generator reports success with exit status
 0

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 66760c3..7b243cf 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From cd413cb89c7e3e0d636623cc4adc3d06a7c51b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:46 +0000
Subject: [PATCH 27/32] fix: packet generator accepts an ack without records

---
 cli/packet-gen/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 7b243cf..9047408 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -207,7 +207,12 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	// ответ может не содержать подтверждений записей
+	records, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		records = &egts.ServiceDataSet{}
+	}
+	for _, rec := range *records {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From b79c27cf707dddc963d0e6d0084822225171245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:51 +0000
Subject: [PATCH 28/32] fix: packet generator reads the whole ack

---
 cli/packet-gen/main.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 9047408..8425767 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"io"
 	"net"
 	"os"
 	"time"
@@ -174,17 +176,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackBuf, err := readPacket(conn)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
@@ -227,3 +227,23 @@ func main() {
 
 	fmt.Println("Packet sent and processed correct")
 }
+
+// readPacket reads one whole packet, however it is split in transit
+func readPacket(r io.Reader) ([]byte, error) {
+	packet := make([]byte, 10)
+	if _, err := io.ReadFull(r, packet); err != nil {
+		return nil, err
+	}
+
+	packetLen := int(packet[3])
+	if bodyLen := int(binary.LittleEndian.Uint16(packet[5:7])); bodyLen > 0 {
+		packetLen += bodyLen + 2
+	}
+	if packetLen < len(packet) {
+		return packet, nil
+	}
+
+	tail := make([]byte, packetLen-len(packet))
+	_, err := io.ReadFull(r, tail)
+	return append(packet, tail...), err
+}
-- 
2.43.0


From 30812efccddc4f51758987550e1e01c813f07872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:55 +0000
Subject: [PATCH 29/32] fix: packet generator sends southern and western
 positions

---
 cli/packet-gen/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 8425767..85eaae3 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
 	"io"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -116,11 +117,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                hemisphere(lon),
+							LAHS:                hemisphere(lat),
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
@@ -228,6 +229,14 @@ func main() {
 	fmt.Println("Packet sent and processed correct")
 }
 
+// hemisphere returns hemisphere flag: south and west coordinates are negative
+func hemisphere(coordinate float64) string {
+	if coordinate < 0 {
+		return "1"
+	}
+	return "0"
+}
+
 // readPacket reads one whole packet, however it is split in transit
 func readPacket(r io.Reader) ([]byte, error) {
 	packet := make([]byte, 10)
-- 
2.43.0


From 484b277c3c928de3ef97f6907e1995f460a2c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:02 +0000
Subject: [PATCH 30/32] fix: close the connection of a client that stopped
 reading replies

---
 cli/receiver/server/server.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 4099a1c..17a2961 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -140,7 +140,9 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа EGTS_PT_RESPONSE с ошибкой")
 				goto Received
 			}
-			_, _ = conn.Write(resp)
+			if s.sendTimedOut(conn, resp) {
+				return
+			}
 
 			goto Received
 		}
@@ -299,12 +301,16 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа")
 				goto Received
 			}
-			_, _ = conn.Write(resp)
+			if s.sendTimedOut(conn, resp) {
+				return
+			}
 
 			log.WithField("packet", resp).Debug("Отправлен пакет EGTS_PT_RESPONSE")
 
 			if len(srResultCodePkg) > 0 {
-				_, _ = conn.Write(srResultCodePkg)
+				if s.sendTimedOut(conn, srResultCodePkg) {
+					return
+				}
 				log.WithField("packet", resp).Debug("Отправлен пакет EGTS_SR_RESULT_CODE")
 			}
 		case egts.PtResponsePacket:
@@ -314,6 +320,21 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 }
 
+// sendTimedOut отправляет пакет клиенту и сообщает, что клиент не принимает данные дольше ttl
+func (s *Server) sendTimedOut(conn net.Conn, packet []byte) bool {
+	if s.ttl > 0 {
+		_ = conn.SetWriteDeadline(time.Now().Add(s.ttl))
+	}
+
+	_, err := conn.Write(packet)
+	if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
+		log.WithField("ip", conn.RemoteAddr()).Warn("Клиент не принимает ответы. Закрыто соединение")
+		return true
+	}
+
+	return false
+}
+
 // idleReader читает данные соединения и прерывает чтение, если их нет дольше ttl
 type idleReader struct {
 	conn net.Conn
-- 
2.43.0


From 8dfeba95721bcddcef395480a07328028511d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 31/32] fix: replay tool sends a last packet without a line end

---
 tools/send_egts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/send_egts.py b/tools/send_egts.py
index 31688cb..0da48f3 100755
--- a/tools/send_egts.py
+++ b/tools/send_egts.py
@@ -22,7 +22,7 @@ if __name__ == '__main__':
     with open(args.file) as f:
         for rec in f.readlines():
             print("send: {}".format(rec))
-            package = bytes.fromhex(rec[:-1])            
+            package = bytes.fromhex(rec.strip())
             client.send(package)
 
             rec_package = client.recv(BUFF)
-- 
2.43.0


From 45b023f5c4347b4f9d64d8ce34ac6c9ab40c569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:15 +0000
Subject: [PATCH 32/32] fix: insert into PostgreSQL once when the server's
 answer is lost

---
 cli/receiver/storage/store/postgresql/connector.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index e9c260a..1bf2267 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -59,7 +59,16 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	}
 
 	insertQuery := fmt.Sprintf("INSERT INTO %s (point) VALUES ($1)", c.config["table"])
-	if _, err = c.connection.Exec(insertQuery, innerPkg); err != nil {
+	// в транзакции запрос не повторяется при потере ответа сервера, и запись не задвоится
+	tx, err := c.connection.Begin()
+	if err != nil {
+		return fmt.Errorf("Не удалось вставить запись: %v", err)
+	}
+	defer tx.Rollback()
+	if _, err = tx.Exec(insertQuery, innerPkg); err != nil {
+		return fmt.Errorf("Не удалось вставить запись: %v", err)
+	}
+	if err = tx.Commit(); err != nil {
 		return fmt.Errorf("Не удалось вставить запись: %v", err)
 	}
 	return nil
-- 
2.43.0

