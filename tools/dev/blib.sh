# blib.sh srcroot outdir flags
R=$1; O=$2; shift 2; mkdir -p $O
ls -S $(find $R/src -name '*.cpp' -not -path '*/robots/*') $(find $R/src -path '*/robots/*' -name '*.cpp') | xargs -P8 -I{} sh -c 'o=$(echo {} | tr / _ ); g++ -std=c++17 -w -O1 '"$*"' -I'$R'/include -I/usr/include/eigen3 -c {} -o '$O'/$o.o'
