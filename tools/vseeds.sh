for i in "$@"; do CGO_ENABLED=1 timeout 800 /verif/tools/checkseed.sh $i; done
