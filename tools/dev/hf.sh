cd /tmp/b; H=$1; S="$2"; N=$3; shift 3
g++ -std=c++17 -w -O1 -D_GLIBCXX_ASSERTIONS -I/repo/include -I/usr/include/eigen3 -c /verif/harness/$H.cpp -o $H.o && g++ $H.o obj/*.o -o $H -lyaml-cpp -lpthread || exit 1
for p in $*; do for s in $S; do ( timeout 600 ./$H $p $s $N o_$p.$s.json w quick; echo $? >o_$p.$s.rc ) & done; done; wait
for p in $*; do for s in $S; do echo "$p $s: rc=$(cat o_$p.$s.rc) viols=$(grep -c viol\" o_$p.$s.json)"; grep '"viol"' o_$p.$s.json | head -4 | cut -c1-700; grep '"sum"' o_$p.$s.json | cut -c1-1200|head -1; done; done
