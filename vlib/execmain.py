from vlib.execlib import main

main()
