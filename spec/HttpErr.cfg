CONSTANTS Codes = {0, 400, 401, 402, 403, 404, 405, 406, 409, 410, 412, 413, 415, 418, 422, 425, 426, 428, 429, 431, 451, 499, 500, 501, 502, 503, 504, 505, 507, 508, 511, 520, 599, 201, 202, 203, 206, 207, 226, 600, 700, 999}
 NameLen = 3
 NChars = {"a", "B", "-", "_", "0", "."}
SPECIFICATION Spec
INVARIANTS Sound NamesMeet Emit
CHECK_DEADLOCK FALSE
