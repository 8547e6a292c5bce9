#!/bin/sh
# Stand-in for one generator program: records the invocation, runs the real
# program, and injects the fault FG_FAULT into the invocations selected by
# FG_MATCH (a shell pattern over "program arguments").
prog=${0##*/}
call="$prog $*"
echo "$call" >> "$FG_LOG"
hit=0
if [ -n "$FG_FAULT" ]; then
    case "$call " in $FG_MATCH) hit=1;; esac
fi
[ -n "$FG_PRELOAD" ] && { LD_PRELOAD=$FG_PRELOAD; export LD_PRELOAD; }
[ -n "$FG_JITTER" ] && sleep "0.0$(( ($$ * 7919) % 5 ))"
[ $hit = 0 ] && exec "$FG_REAL/$prog" "$@"
echo "FAULT $call" >> "$FG_LOG"
swap() { # replaces the value of option $1 by /dev/full
    opt=$1; shift; n=$#; prev=
    while [ $n -gt 0 ]; do
        a=$1; shift; n=$((n-1)); b=$a
        [ "$prev" = "$opt" ] && b=/dev/full
        set -- "$@" "$b"; prev=$a
    done
    exec "$FG_REAL/$prog" "$@"
}
case "$FG_FAULT" in
    exit1)   exit 1;;
    exit77)  exit 77;;
    late1)   "$FG_REAL/$prog" "$@"; exit 1;;
    segv)    ulimit -c 0; kill -SEGV $$;;
    kill)    kill -KILL $$;;
    late9)   "$FG_REAL/$prog" "$@"; kill -KILL $$;;
    srcfull) swap -o "$@";;
    hdrfull) swap -oh "$@";;
    logfull) exec "$FG_REAL/$prog" "$@" > /dev/full;;
    fsize)   ulimit -c 0; ulimit -f 0; exec "$FG_REAL/$prog" "$@";;
    nomem)   ulimit -c 0; ulimit -v 5000; exec "$FG_REAL/$prog" "$@";;
    nosrc)   set -- "$@"; a=; for x in "$@"; do [ "$a" = -o ] && { rm -f "$x"; mkdir "$x"; }; a=$x; done
             exec "$FG_REAL/$prog" "$@";;
    rmdir)   a=; for x in "$@"; do [ "$a" = -o ] && d=${x%/*}; a=$x; done
             case "$d" in "$FG_SCRATCH"/*) rm -rf "$d";; esac
             exit 0;;
esac
exit 0
