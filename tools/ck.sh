cd /verif; VERIF_NODUMP=1 python3 check.py $1 2>&1 | cut -c1-${2:-900}
