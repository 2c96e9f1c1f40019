-------------------------------- MODULE Lits --------------------------------
(* Generated by tools/mklits.py: byte strings as tuples of numbers. *)
CRLF == <<13, 10>>
COLONSP == <<58, 32>>
BYTESEQ == <<98, 121, 116, 101, 115, 61>>
NONE == <<78, 79, 78, 69>>
H_CLEN == <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104>>
H_CTYPE == <<67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101>>
H_RANGE == <<82, 97, 110, 103, 101>>
H_CONN == <<67, 111, 110, 110, 101, 99, 116, 105, 111, 110>>
H_CRANGE == <<67, 111, 110, 116, 101, 110, 116, 45, 82, 97, 110, 103, 101>>
H_SERVER == <<83, 101, 114, 118, 101, 114>>
H_ACCR == <<65, 99, 99, 101, 112, 116, 45, 82, 97, 110, 103, 101, 115>>
H_DATE == <<68, 97, 116, 101>>
H_XC == <<88, 45, 67>>
T7A == <<110, 61>>
T7B == <<59, 91>>
T7C == <<93, 10>>
T7D == <<10, 101, 110, 100, 32>>
FORMTYPE == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 119, 119, 119, 45, 102, 111, 114, 109, 45, 117, 114, 108, 101, 110, 99, 111, 100, 101, 100>>
HTTP11 == <<72, 84, 84, 80, 47, 49, 46, 49, 32>>
R_200 == <<50, 48, 48, 32, 79, 75>>
R_206 == <<50, 48, 54, 32, 80, 97, 114, 116, 105, 97, 108, 32, 67, 111, 110, 116, 101, 110, 116>>
R_301 == <<51, 48, 49, 32, 77, 111, 118, 101, 100>>
R_302 == <<51, 48, 50, 32, 70, 111, 117, 110, 100>>
R_400 == <<52, 48, 48, 32, 66, 97, 100, 32, 82, 101, 113, 117, 101, 115, 116>>
R_403 == <<52, 48, 51, 32, 70, 111, 114, 98, 105, 100, 100, 101, 110>>
R_404 == <<52, 48, 52, 32, 78, 111, 116, 32, 70, 111, 117, 110, 100>>
R_500 == <<53, 48, 48, 32, 73, 110, 116, 101, 114, 110, 97, 108, 32, 83, 101, 114, 118, 101, 114, 32, 69, 114, 114, 111, 114>>
V_BYTES == <<98, 121, 116, 101, 115, 32>>
V_CLOSE == <<99, 108, 111, 115, 101>>
V_SERVER == <<51, 56, 45, 77, 111, 116, 104, 115>>
V_UNITS == <<98, 121, 116, 101, 115>>
TEXTHTML == <<116, 101, 120, 116, 47, 104, 116, 109, 108>>
OCTET == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 111, 99, 116, 101, 116, 45, 115, 116, 114, 101, 97, 109>>
BUILTIN404 == <<60, 104, 49, 62, 34, 87, 101, 108, 99, 111, 109, 101, 32, 116, 111, 32, 68, 105, 101, 124, 60, 47, 104, 49, 62>>
FALSE_ == <<70, 65, 76, 83, 69>>
T_VAR == <<120, 88, 120, 32, 64>>
T_END == <<32, 120, 88, 120>>
T_INC == <<120, 88, 120, 32, 83, 67, 82, 69, 65, 77, 32>>
T_LOOP == <<120, 88, 120, 32, 76, 79, 79, 80, 32>>
T_BBL == <<120, 88, 120, 32, 66, 66, 76, 32, 120, 88, 120>>
T_UNLESS == <<120, 88, 120, 32, 85, 78, 76, 69, 83, 83, 32, 64>>
T_NOT == <<120, 88, 120, 32, 85, 78, 76, 69, 83, 83, 32, 78, 79, 84, 32, 64>>
T_ENDLESS == <<120, 88, 120, 32, 69, 78, 68, 76, 69, 83, 83, 32, 120, 88, 120>>
T_FILT == <<88, 120, 88, 32>>
T_FEND == <<32, 88, 120, 88>>
GX == <<120, 88, 120, 32, 64, 120, 32, 120, 88, 120>>
GXY == <<120, 88, 120, 32, 64, 120, 121, 32, 120, 88, 120>>
GSA == <<120, 88, 120, 32, 64, 115, 46, 97, 32, 120, 88, 120>>
GPART == <<32, 64, 120, 32, 120, 88, 120>>
GMARK == <<120, 88, 120>>
GI == <<120, 88, 120, 32, 64, 105, 32, 120, 88, 120>>
GIK == <<120, 88, 120, 32, 64, 105, 46, 107, 32, 120, 88, 120>>
GLOOPL == <<120, 88, 120, 32, 76, 79, 79, 80, 32, 105, 32, 108, 32, 120, 88, 120>>
GLOOPM == <<120, 88, 120, 32, 76, 79, 79, 80, 32, 105, 32, 109, 32, 120, 88, 120>>
GUX == <<120, 88, 120, 32, 85, 78, 76, 69, 83, 83, 32, 64, 120, 32, 120, 88, 120>>
GNX == <<120, 88, 120, 32, 85, 78, 76, 69, 83, 83, 32, 78, 79, 84, 32, 64, 120, 32, 120, 88, 120>>
GUF == <<120, 88, 120, 32, 85, 78, 76, 69, 83, 83, 32, 64, 102, 32, 120, 88, 120>>
GNF == <<120, 88, 120, 32, 85, 78, 76, 69, 83, 83, 32, 78, 79, 84, 32, 64, 102, 32, 120, 88, 120>>
GUSA == <<120, 88, 120, 32, 85, 78, 76, 69, 83, 83, 32, 64, 115, 46, 97, 32, 120, 88, 120>>
GNSA == <<120, 88, 120, 32, 85, 78, 76, 69, 83, 83, 32, 78, 79, 84, 32, 64, 115, 46, 97, 32, 120, 88, 120>>
GUP == <<88, 120, 88, 32, 117, 112>>
GK == <<88, 120, 88, 32, 107, 32, 88, 120, 88>>
GARG == <<32, 97>>
GINC == <<120, 88, 120, 32, 83, 67, 82, 69, 65, 77, 32, 105, 110, 99, 32, 120, 88, 120>>
MIMETYPES == <<<<<<46, 99, 115, 115>>, <<116, 101, 120, 116, 47, 99, 115, 115>>>>,
  <<<<46, 106, 112, 103>>, <<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>>>,
  <<<<46, 116, 120, 116>>, <<116, 101, 120, 116, 47, 112, 108, 97, 105, 110>>>>,
  <<<<46, 104, 116, 109, 108>>, <<116, 101, 120, 116, 47, 104, 116, 109, 108>>>>,
  <<<<46, 115, 118, 103>>, <<105, 109, 97, 103, 101, 47, 115, 118, 103, 43, 120, 109, 108>>>>,
  <<<<46, 105, 99, 111>>, <<105, 109, 97, 103, 101, 47, 120, 45, 105, 99, 111, 110>>>>,
  <<<<46, 119, 101, 98, 109>>, <<118, 105, 100, 101, 111, 47, 119, 101, 98, 109>>>>,
  <<<<46, 103, 105, 102>>, <<105, 109, 97, 103, 101, 47, 103, 105, 102>>>>,
  <<<<46, 106, 115, 111, 110>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 115, 111, 110>>>>,
  <<<<46, 106, 115>>, <<116, 101, 120, 116, 47, 106, 97, 118, 97, 115, 99, 114, 105, 112, 116>>>>>>
REASONS == [c \in {200, 206, 301, 302, 400, 403, 404, 500} |-> CASE c = 200 -> R_200 [] c = 206 -> R_206 [] c = 301 -> R_301 [] c = 302 -> R_302 [] c = 400 -> R_400 [] c = 403 -> R_403 [] c = 404 -> R_404 [] c = 500 -> R_500]
SYM_INFO == <<91, 27, 91, 51, 52, 109, 45, 27, 91, 48, 109, 93>>
SYM_DEBUG == <<91, 27, 91, 57, 49, 109, 94, 27, 91, 48, 109, 93>>
SYM_WARN == <<91, 27, 91, 51, 51, 109, 33, 27, 91, 48, 109, 93>>
SYM_ERR == <<91, 27, 91, 51, 49, 109, 120, 27, 91, 48, 109, 93>>
SYM_FUN == <<91, 27, 91, 51, 54, 109, 126, 27, 91, 48, 109, 93>>
SYM_DB == <<91, 27, 91, 51, 53, 109, 126, 27, 91, 48, 109, 93>>
=============================================================================
