mkdir -p /tmp/chk
cd /verif
for i in $(seq -w 1 30) 35; do echo C$i; done | xargs -P 8 -I{} sh -c 'python3 -B xsa/check.py {} > /tmp/chk/{}.out 2>&1; echo "{} $?" > /tmp/chk/{}.rc'
cat /tmp/chk/*.rc | grep -v " 0$"; grep -h "undecided\|VIOL" /tmp/chk/*.out
