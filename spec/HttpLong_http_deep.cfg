CONSTANTS Lens = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 513, 1025, 4097}
 Mode = "http"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
