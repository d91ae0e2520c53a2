. /tmp/w/env.sh
cd /tmp/w/v/spec; JAVA_TOOL_OPTIONS=-Xss64m timeout 300 tlc -noGenerateSpecTE -metadir /tmp/w/md "$@" > /tmp/w/o.txt 2>&1; grep -v '^"@\|^	at\|^Pars\|^Semantic processing\|^Picked' /tmp/w/o.txt | tail -12; grep -c '^"@@' /tmp/w/o.txt
