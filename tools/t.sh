echo "--- $*"; /tmp/mut.sh "$@"
