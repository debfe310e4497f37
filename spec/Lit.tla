---- MODULE Lit ----
(* Generated by tools/mklit.py: named byte strings. *)
LOCAL INSTANCE Integers
CRLF == <<13, 10>>  \* '\r\n'
CR1 == <<13>>  \* '\r'
LF1 == <<10>>  \* '\n'
CRLFCRLF == <<13, 10, 13, 10>>  \* '\r\n\r\n'
DASHES == <<45, 45>>  \* '--'
kHost == <<72, 111, 115, 116>>  \* 'Host'
kContentType == <<67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101>>  \* 'Content-Type'
kContentLength == <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104>>  \* 'Content-Length'
kXRW == <<88, 45, 82, 101, 113, 117, 101, 115, 116, 101, 100, 45, 87, 105, 116, 104>>  \* 'X-Requested-With'
vXHR == <<88, 77, 76, 72, 116, 116, 112, 82, 101, 113, 117, 101, 115, 116>>  \* 'XMLHttpRequest'
sHttp == <<104, 116, 116, 112>>  \* 'http'
sHttps == <<104, 116, 116, 112, 115>>  \* 'https'
sUNKNOWN == <<85, 78, 75, 78, 79, 87, 78>>  \* 'UNKNOWN'
p80 == <<56, 48>>  \* '80'
p443 == <<52, 52, 51>>  \* '443'
p65536 == <<54, 53, 53, 51, 54>>  \* '65536'
sSchemeSep == <<58, 47, 47>>  \* '://'
kCD == <<99, 111, 110, 116, 101, 110, 116, 45, 100, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110>>  \* 'content-disposition'
kCTE == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>  \* 'content-transfer-encoding'
kCT == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>  \* 'content-type'
kName == <<110, 97, 109, 101>>  \* 'name'
kFilename == <<102, 105, 108, 101, 110, 97, 109, 101>>  \* 'filename'
kPCL == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>  \* 'content-length'
kCharset == <<99, 104, 97, 114, 115, 101, 116>>  \* 'charset'
kBoundary == <<98, 111, 117, 110, 100, 97, 114, 121>>  \* 'boundary'
vBase64 == <<98, 97, 115, 101, 54, 52>>  \* 'base64'
vMultipart == <<109, 117, 108, 116, 105, 112, 97, 114, 116, 47>>  \* 'multipart/'
vFormData == <<109, 117, 108, 116, 105, 112, 97, 114, 116, 47, 102, 111, 114, 109, 45, 100, 97, 116, 97>>  \* 'multipart/form-data'
vUrlenc == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 119, 119, 119, 45, 102, 111, 114, 109, 45, 117, 114, 108, 101, 110, 99, 111, 100, 101, 100>>  \* 'application/x-www-form-urlencoded'
vPlain == <<116, 101, 120, 116, 47, 112, 108, 97, 105, 110>>  \* 'text/plain'
eUtf8 == <<117, 116, 102, 45, 56>>  \* 'utf-8'
eUtf8b == <<117, 116, 102, 56>>  \* 'utf8'
eLatin1 == <<105, 115, 111, 45, 56, 56, 53, 57, 45, 49>>  \* 'iso-8859-1'
eLatin1b == <<108, 97, 116, 105, 110, 45, 49>>  \* 'latin-1'
eLatin1c == <<108, 97, 116, 105, 110, 49>>  \* 'latin1'
eAscii == <<117, 115, 45, 97, 115, 99, 105, 105>>  \* 'us-ascii'
eAsciib == <<97, 115, 99, 105, 105>>  \* 'ascii'
eHex == <<104, 101, 120>>  \* 'hex'
eBase64 == <<98, 97, 115, 101, 54, 52>>  \* 'base64'
eZlib == <<122, 108, 105, 98>>  \* 'zlib'
eBogus == <<120, 45, 98, 111, 103, 117, 115>>  \* 'x-bogus'
sUpload == <<46, 117, 112, 108, 111, 97, 100>>  \* '.upload'
sNameless == <<60, 72, 116, 116, 112, 82, 101, 113, 117, 101, 115, 116, 62>>  \* '<HttpRequest>'
sNamed == <<60, 72, 116, 116, 112, 82, 101, 113, 117, 101, 115, 116, 58, 32>>  \* '<HttpRequest: '
pct2F == <<47, 37, 50, 70>>  \* '/%2F'
sPoked == <<112, 111, 107, 101, 100>>  \* 'poked'
sYes == <<121, 101, 115>>  \* 'yes'
xForm == <<80, 79, 83, 84, 32, 47, 112, 63, 113, 61, 37, 67, 51, 37, 65, 57, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 72, 111, 115, 116, 58, 32, 104, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101, 58, 32, 97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 119, 119, 119, 45, 102, 111, 114, 109, 45, 117, 114, 108, 101, 110, 99, 111, 100, 101, 100, 59, 32, 99, 104, 97, 114, 115, 101, 116, 61, 117, 116, 102, 45, 56, 13, 10, 13, 10, 97, 61, 37, 67, 51, 37, 65, 57, 38, 98, 61, 49>>  \* 'POST /p?q=%C3%A9 HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded; charset=utf-8\r\n\r\na=%C3%A9&b=1'
xMulti == <<80, 79, 83, 84, 32, 47, 109, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 72, 111, 115, 116, 58, 32, 104, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101, 58, 32, 109, 117, 108, 116, 105, 112, 97, 114, 116, 47, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 98, 111, 117, 110, 100, 97, 114, 121, 61, 66, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104, 58, 32, 49, 51, 48, 13, 10, 13, 10, 45, 45, 66, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 68, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58, 32, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 110, 97, 109, 101, 61, 34, 102, 34, 13, 10, 13, 10, 118, 13, 10, 45, 45, 66, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 68, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58, 32, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 110, 97, 109, 101, 61, 34, 117, 34, 59, 32, 102, 105, 108, 101, 110, 97, 109, 101, 61, 34, 110, 46, 116, 34, 13, 10, 13, 10, 100, 97, 116, 97, 13, 10, 45, 45, 66, 45, 45, 13, 10>>  \* 'POST /m HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: 130\r\n\r\n--B\r\nContent-Disposition: form-data; name="f"\r\n\r\nv\r\n--B\r\nContent-Disposition: form-data; name="u"; filename="n.t"\r\n\r\ndata\r\n--B--\r\n'
xText == <<80, 85, 84, 32, 47, 116, 63, 122, 61, 37, 69, 57, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 72, 111, 115, 116, 58, 32, 104, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101, 58, 32, 116, 101, 120, 116, 47, 112, 108, 97, 105, 110, 13, 10, 13, 10, 120, 233, 10, 121>>  \* 'PUT /t?z=%E9 HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain\r\n\r\nxé\ny'
xBad == <<71, 69, 84, 32, 47, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 110, 111, 99, 111, 108, 111, 110, 13, 10, 13, 10, 114, 101, 115, 116>>  \* 'GET / HTTP/1.1\r\nnocolon\r\n\r\nrest'
xGet == <<71, 69, 84, 32, 104, 116, 116, 112, 58, 47, 47, 103, 58, 56, 47, 103, 63, 97, 61, 49, 38, 97, 61, 50, 32, 72, 84, 84, 80, 47, 49, 46, 48, 13, 10, 88, 58, 32, 121, 13, 10, 13, 10>>  \* 'GET http://g:8/g?a=1&a=2 HTTP/1.0\r\nX: y\r\n\r\n'
xEmptyForm == <<80, 79, 83, 84, 32, 47, 101, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 72, 111, 115, 116, 58, 32, 101, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101, 58, 32, 97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 119, 119, 119, 45, 102, 111, 114, 109, 45, 117, 114, 108, 101, 110, 99, 111, 100, 101, 100, 13, 10, 13, 10>>  \* 'POST /e HTTP/1.1\r\nHost: e\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n'
xFailHead == <<80, 79, 83, 84, 32, 47, 112, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 72, 111, 115, 116, 58, 32, 104, 13, 10, 67, 111, 110, 116>>  \* 'POST /p HTTP/1.1\r\nHost: h\r\nCont'
bForm == <<99, 61, 37, 67, 51, 37, 65, 57, 38, 99, 61, 50>>  \* 'c=%C3%A9&c=2'
bMulti == <<45, 45, 66, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 68, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58, 32, 102, 111, 114, 109, 45, 68, 65, 84, 65, 33, 59, 32, 110, 97, 109, 101, 61, 34, 102, 34, 13, 10, 13, 10, 119, 13, 10, 45, 45, 66, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 68, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58, 32, 102, 111, 114, 109, 45, 68, 65, 84, 65, 33, 59, 32, 110, 97, 109, 101, 61, 34, 117, 34, 59, 32, 102, 105, 108, 101, 110, 97, 109, 101, 61, 34, 110, 46, 116, 34, 13, 10, 13, 10, 68, 65, 84, 65, 33, 13, 10, 45, 45, 66, 45, 45, 13, 10>>  \* '--B\r\nContent-Disposition: form-DATA!; name="f"\r\n\r\nw\r\n--B\r\nContent-Disposition: form-DATA!; name="u"; filename="n.t"\r\n\r\nDATA!\r\n--B--\r\n'
bText == <<108, 49, 10, 108, 50>>  \* 'l1\nl2'
hBody == <<45, 45, 66, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 68, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58, 32, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 110, 97, 109, 101, 61, 34, 102, 34, 59, 32, 102, 105, 108, 101, 110, 97, 109, 101, 61, 34, 110, 34, 13, 10, 13, 10, 97, 98, 13, 10, 45, 45, 66, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 68, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58, 32, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 110, 97, 109, 101, 61, 34, 120, 34, 13, 10, 13, 10, 118, 13, 10, 45, 45, 66, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 68, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58, 32, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 110, 97, 109, 101, 61, 34, 103, 34, 59, 32, 102, 105, 108, 101, 110, 97, 109, 101, 61, 34, 109, 34, 13, 10, 13, 10, 99, 13, 10, 45, 45, 66, 45, 45, 13, 10>>  \* '--B\r\nContent-Disposition: form-data; name="f"; filename="n"\r\n\r\nab\r\n--B\r\nContent-Disposition: form-data; name="x"\r\n\r\nv\r\n--B\r\nContent-Disposition: form-data; name="g"; filename="m"\r\n\r\nc\r\n--B--\r\n'
hType == <<109, 117, 108, 116, 105, 112, 97, 114, 116, 47, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 98, 111, 117, 110, 100, 97, 114, 121, 61, 66>>  \* 'multipart/form-data; boundary=B'
UsesParams == {<<102, 116, 112>>, <<104, 100, 108>>, <<112, 114, 111, 115, 112, 101, 114, 111>>, <<104, 116, 116, 112>>, <<105, 109, 97, 112>>, <<104, 116, 116, 112, 115>>, <<115, 104, 116, 116, 112>>, <<114, 116, 115, 112>>, <<114, 116, 115, 112, 117>>, <<115, 105, 112>>, <<115, 105, 112, 115>>, <<109, 109, 115>>, <<>>, <<115, 102, 116, 112>>, <<116, 101, 108>>}
Entities == {<<<<65, 69, 108, 105, 103>>, 198>>, <<<<65, 97, 99, 117, 116, 101>>, 193>>, <<<<65, 99, 105, 114, 99>>, 194>>, <<<<65, 103, 114, 97, 118, 101>>, 192>>, <<<<65, 108, 112, 104, 97>>, 913>>, <<<<65, 114, 105, 110, 103>>, 197>>, <<<<65, 116, 105, 108, 100, 101>>, 195>>, <<<<65, 117, 109, 108>>, 196>>, <<<<66, 101, 116, 97>>, 914>>, <<<<67, 99, 101, 100, 105, 108>>, 199>>, <<<<67, 104, 105>>, 935>>, <<<<68, 97, 103, 103, 101, 114>>, 8225>>, <<<<68, 101, 108, 116, 97>>, 916>>, <<<<69, 84, 72>>, 208>>, <<<<69, 97, 99, 117, 116, 101>>, 201>>, <<<<69, 99, 105, 114, 99>>, 202>>, <<<<69, 103, 114, 97, 118, 101>>, 200>>, <<<<69, 112, 115, 105, 108, 111, 110>>, 917>>, <<<<69, 116, 97>>, 919>>, <<<<69, 117, 109, 108>>, 203>>, <<<<71, 97, 109, 109, 97>>, 915>>, <<<<73, 97, 99, 117, 116, 101>>, 205>>, <<<<73, 99, 105, 114, 99>>, 206>>, <<<<73, 103, 114, 97, 118, 101>>, 204>>, <<<<73, 111, 116, 97>>, 921>>, <<<<73, 117, 109, 108>>, 207>>, <<<<75, 97, 112, 112, 97>>, 922>>, <<<<76, 97, 109, 98, 100, 97>>, 923>>, <<<<77, 117>>, 924>>, <<<<78, 116, 105, 108, 100, 101>>, 209>>, <<<<78, 117>>, 925>>, <<<<79, 69, 108, 105, 103>>, 338>>, <<<<79, 97, 99, 117, 116, 101>>, 211>>, <<<<79, 99, 105, 114, 99>>, 212>>, <<<<79, 103, 114, 97, 118, 101>>, 210>>, <<<<79, 109, 101, 103, 97>>, 937>>, <<<<79, 109, 105, 99, 114, 111, 110>>, 927>>, <<<<79, 115, 108, 97, 115, 104>>, 216>>, <<<<79, 116, 105, 108, 100, 101>>, 213>>, <<<<79, 117, 109, 108>>, 214>>, <<<<80, 104, 105>>, 934>>, <<<<80, 105>>, 928>>, <<<<80, 114, 105, 109, 101>>, 8243>>, <<<<80, 115, 105>>, 936>>, <<<<82, 104, 111>>, 929>>, <<<<83, 99, 97, 114, 111, 110>>, 352>>, <<<<83, 105, 103, 109, 97>>, 931>>, <<<<84, 72, 79, 82, 78>>, 222>>, <<<<84, 97, 117>>, 932>>, <<<<84, 104, 101, 116, 97>>, 920>>, <<<<85, 97, 99, 117, 116, 101>>, 218>>, <<<<85, 99, 105, 114, 99>>, 219>>, <<<<85, 103, 114, 97, 118, 101>>, 217>>, <<<<85, 112, 115, 105, 108, 111, 110>>, 933>>, <<<<85, 117, 109, 108>>, 220>>, <<<<88, 105>>, 926>>, <<<<89, 97, 99, 117, 116, 101>>, 221>>, <<<<89, 117, 109, 108>>, 376>>, <<<<90, 101, 116, 97>>, 918>>, <<<<97, 97, 99, 117, 116, 101>>, 225>>, <<<<97, 99, 105, 114, 99>>, 226>>, <<<<97, 99, 117, 116, 101>>, 180>>, <<<<97, 101, 108, 105, 103>>, 230>>, <<<<97, 103, 114, 97, 118, 101>>, 224>>, <<<<97, 108, 101, 102, 115, 121, 109>>, 8501>>, <<<<97, 108, 112, 104, 97>>, 945>>, <<<<97, 109, 112>>, 38>>, <<<<97, 110, 100>>, 8743>>, <<<<97, 110, 103>>, 8736>>, <<<<97, 114, 105, 110, 103>>, 229>>, <<<<97, 115, 121, 109, 112>>, 8776>>, <<<<97, 116, 105, 108, 100, 101>>, 227>>, <<<<97, 117, 109, 108>>, 228>>, <<<<98, 100, 113, 117, 111>>, 8222>>, <<<<98, 101, 116, 97>>, 946>>, <<<<98, 114, 118, 98, 97, 114>>, 166>>, <<<<98, 117, 108, 108>>, 8226>>, <<<<99, 97, 112>>, 8745>>, <<<<99, 99, 101, 100, 105, 108>>, 231>>, <<<<99, 101, 100, 105, 108>>, 184>>, <<<<99, 101, 110, 116>>, 162>>, <<<<99, 104, 105>>, 967>>, <<<<99, 105, 114, 99>>, 710>>, <<<<99, 108, 117, 98, 115>>, 9827>>, <<<<99, 111, 110, 103>>, 8773>>, <<<<99, 111, 112, 121>>, 169>>, <<<<99, 114, 97, 114, 114>>, 8629>>, <<<<99, 117, 112>>, 8746>>, <<<<99, 117, 114, 114, 101, 110>>, 164>>, <<<<100, 65, 114, 114>>, 8659>>, <<<<100, 97, 103, 103, 101, 114>>, 8224>>, <<<<100, 97, 114, 114>>, 8595>>, <<<<100, 101, 103>>, 176>>, <<<<100, 101, 108, 116, 97>>, 948>>, <<<<100, 105, 97, 109, 115>>, 9830>>, <<<<100, 105, 118, 105, 100, 101>>, 247>>, <<<<101, 97, 99, 117, 116, 101>>, 233>>, <<<<101, 99, 105, 114, 99>>, 234>>, <<<<101, 103, 114, 97, 118, 101>>, 232>>, <<<<101, 109, 112, 116, 121>>, 8709>>, <<<<101, 109, 115, 112>>, 8195>>, <<<<101, 110, 115, 112>>, 8194>>, <<<<101, 112, 115, 105, 108, 111, 110>>, 949>>, <<<<101, 113, 117, 105, 118>>, 8801>>, <<<<101, 116, 97>>, 951>>, <<<<101, 116, 104>>, 240>>, <<<<101, 117, 109, 108>>, 235>>, <<<<101, 117, 114, 111>>, 8364>>, <<<<101, 120, 105, 115, 116>>, 8707>>, <<<<102, 110, 111, 102>>, 402>>, <<<<102, 111, 114, 97, 108, 108>>, 8704>>, <<<<102, 114, 97, 99, 49, 50>>, 189>>, <<<<102, 114, 97, 99, 49, 52>>, 188>>, <<<<102, 114, 97, 99, 51, 52>>, 190>>, <<<<102, 114, 97, 115, 108>>, 8260>>, <<<<103, 97, 109, 109, 97>>, 947>>, <<<<103, 101>>, 8805>>, <<<<103, 116>>, 62>>, <<<<104, 65, 114, 114>>, 8660>>, <<<<104, 97, 114, 114>>, 8596>>, <<<<104, 101, 97, 114, 116, 115>>, 9829>>, <<<<104, 101, 108, 108, 105, 112>>, 8230>>, <<<<105, 97, 99, 117, 116, 101>>, 237>>, <<<<105, 99, 105, 114, 99>>, 238>>, <<<<105, 101, 120, 99, 108>>, 161>>, <<<<105, 103, 114, 97, 118, 101>>, 236>>, <<<<105, 109, 97, 103, 101>>, 8465>>, <<<<105, 110, 102, 105, 110>>, 8734>>, <<<<105, 110, 116>>, 8747>>, <<<<105, 111, 116, 97>>, 953>>, <<<<105, 113, 117, 101, 115, 116>>, 191>>, <<<<105, 115, 105, 110>>, 8712>>, <<<<105, 117, 109, 108>>, 239>>, <<<<107, 97, 112, 112, 97>>, 954>>, <<<<108, 65, 114, 114>>, 8656>>, <<<<108, 97, 109, 98, 100, 97>>, 955>>, <<<<108, 97, 110, 103>>, 9001>>, <<<<108, 97, 113, 117, 111>>, 171>>, <<<<108, 97, 114, 114>>, 8592>>, <<<<108, 99, 101, 105, 108>>, 8968>>, <<<<108, 100, 113, 117, 111>>, 8220>>, <<<<108, 101>>, 8804>>, <<<<108, 102, 108, 111, 111, 114>>, 8970>>, <<<<108, 111, 119, 97, 115, 116>>, 8727>>, <<<<108, 111, 122>>, 9674>>, <<<<108, 114, 109>>, 8206>>, <<<<108, 115, 97, 113, 117, 111>>, 8249>>, <<<<108, 115, 113, 117, 111>>, 8216>>, <<<<108, 116>>, 60>>, <<<<109, 97, 99, 114>>, 175>>, <<<<109, 100, 97, 115, 104>>, 8212>>, <<<<109, 105, 99, 114, 111>>, 181>>, <<<<109, 105, 100, 100, 111, 116>>, 183>>, <<<<109, 105, 110, 117, 115>>, 8722>>, <<<<109, 117>>, 956>>, <<<<110, 97, 98, 108, 97>>, 8711>>, <<<<110, 98, 115, 112>>, 160>>, <<<<110, 100, 97, 115, 104>>, 8211>>, <<<<110, 101>>, 8800>>, <<<<110, 105>>, 8715>>, <<<<110, 111, 116>>, 172>>, <<<<110, 111, 116, 105, 110>>, 8713>>, <<<<110, 115, 117, 98>>, 8836>>, <<<<110, 116, 105, 108, 100, 101>>, 241>>, <<<<110, 117>>, 957>>, <<<<111, 97, 99, 117, 116, 101>>, 243>>, <<<<111, 99, 105, 114, 99>>, 244>>, <<<<111, 101, 108, 105, 103>>, 339>>, <<<<111, 103, 114, 97, 118, 101>>, 242>>, <<<<111, 108, 105, 110, 101>>, 8254>>, <<<<111, 109, 101, 103, 97>>, 969>>, <<<<111, 109, 105, 99, 114, 111, 110>>, 959>>, <<<<111, 112, 108, 117, 115>>, 8853>>, <<<<111, 114>>, 8744>>, <<<<111, 114, 100, 102>>, 170>>, <<<<111, 114, 100, 109>>, 186>>, <<<<111, 115, 108, 97, 115, 104>>, 248>>, <<<<111, 116, 105, 108, 100, 101>>, 245>>, <<<<111, 116, 105, 109, 101, 115>>, 8855>>, <<<<111, 117, 109, 108>>, 246>>, <<<<112, 97, 114, 97>>, 182>>, <<<<112, 97, 114, 116>>, 8706>>, <<<<112, 101, 114, 109, 105, 108>>, 8240>>, <<<<112, 101, 114, 112>>, 8869>>, <<<<112, 104, 105>>, 966>>, <<<<112, 105>>, 960>>, <<<<112, 105, 118>>, 982>>, <<<<112, 108, 117, 115, 109, 110>>, 177>>, <<<<112, 111, 117, 110, 100>>, 163>>, <<<<112, 114, 105, 109, 101>>, 8242>>, <<<<112, 114, 111, 100>>, 8719>>, <<<<112, 114, 111, 112>>, 8733>>, <<<<112, 115, 105>>, 968>>, <<<<113, 117, 111, 116>>, 34>>, <<<<114, 65, 114, 114>>, 8658>>, <<<<114, 97, 100, 105, 99>>, 8730>>, <<<<114, 97, 110, 103>>, 9002>>, <<<<114, 97, 113, 117, 111>>, 187>>, <<<<114, 97, 114, 114>>, 8594>>, <<<<114, 99, 101, 105, 108>>, 8969>>, <<<<114, 100, 113, 117, 111>>, 8221>>, <<<<114, 101, 97, 108>>, 8476>>, <<<<114, 101, 103>>, 174>>, <<<<114, 102, 108, 111, 111, 114>>, 8971>>, <<<<114, 104, 111>>, 961>>, <<<<114, 108, 109>>, 8207>>, <<<<114, 115, 97, 113, 117, 111>>, 8250>>, <<<<114, 115, 113, 117, 111>>, 8217>>, <<<<115, 98, 113, 117, 111>>, 8218>>, <<<<115, 99, 97, 114, 111, 110>>, 353>>, <<<<115, 100, 111, 116>>, 8901>>, <<<<115, 101, 99, 116>>, 167>>, <<<<115, 104, 121>>, 173>>, <<<<115, 105, 103, 109, 97>>, 963>>, <<<<115, 105, 103, 109, 97, 102>>, 962>>, <<<<115, 105, 109>>, 8764>>, <<<<115, 112, 97, 100, 101, 115>>, 9824>>, <<<<115, 117, 98>>, 8834>>, <<<<115, 117, 98, 101>>, 8838>>, <<<<115, 117, 109>>, 8721>>, <<<<115, 117, 112>>, 8835>>, <<<<115, 117, 112, 49>>, 185>>, <<<<115, 117, 112, 50>>, 178>>, <<<<115, 117, 112, 51>>, 179>>, <<<<115, 117, 112, 101>>, 8839>>, <<<<115, 122, 108, 105, 103>>, 223>>, <<<<116, 97, 117>>, 964>>, <<<<116, 104, 101, 114, 101, 52>>, 8756>>, <<<<116, 104, 101, 116, 97>>, 952>>, <<<<116, 104, 101, 116, 97, 115, 121, 109>>, 977>>, <<<<116, 104, 105, 110, 115, 112>>, 8201>>, <<<<116, 104, 111, 114, 110>>, 254>>, <<<<116, 105, 108, 100, 101>>, 732>>, <<<<116, 105, 109, 101, 115>>, 215>>, <<<<116, 114, 97, 100, 101>>, 8482>>, <<<<117, 65, 114, 114>>, 8657>>, <<<<117, 97, 99, 117, 116, 101>>, 250>>, <<<<117, 97, 114, 114>>, 8593>>, <<<<117, 99, 105, 114, 99>>, 251>>, <<<<117, 103, 114, 97, 118, 101>>, 249>>, <<<<117, 109, 108>>, 168>>, <<<<117, 112, 115, 105, 104>>, 978>>, <<<<117, 112, 115, 105, 108, 111, 110>>, 965>>, <<<<117, 117, 109, 108>>, 252>>, <<<<119, 101, 105, 101, 114, 112>>, 8472>>, <<<<120, 105>>, 958>>, <<<<121, 97, 99, 117, 116, 101>>, 253>>, <<<<121, 101, 110>>, 165>>, <<<<121, 117, 109, 108>>, 255>>, <<<<122, 101, 116, 97>>, 950>>, <<<<122, 119, 106>>, 8205>>, <<<<122, 119, 110, 106>>, 8204>>}
====
