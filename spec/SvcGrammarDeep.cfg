SPECIFICATION Spec
INVARIANTS Faithful ScanFaithful
CHECK_DEADLOCK FALSE
CONSTANTS
 Words = {"x","service","rpc","option","java_package","message","Svc","Req","string","7","1","2","3","0","E","E0","enum","M","true","deprecated","json_name",
  "syntax","package","p","v1","import","go_package","id","name","body_f","Abc_Svc","stream","returns","Abc","get_it","X9","body","idempotency_level","IDEMPOTENT","google","api","http",
  "additional_bindings","Opts","extend","protobuf","MethodOptions","ServiceOptions","repeated","50001","50002","50003","svc","custom","kind","path","get","put","post","delete","patch","a","HEAD"}
 Small = TRUE
 Foreign = FALSE
 MaxRpcs = 1
 MaxAdds = 1
