. /opt/vp/env.sh
export OMP_NUM_THREADS=4 MPLBACKEND=Agg
exec python "$(dirname "$0")/demo.py"
