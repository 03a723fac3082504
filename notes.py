DEFAULT = ("Random generation of inputs within the bounds DESIGN.md gives, each judged by an oracle written "
           "independently of the code; nothing is proved about inputs that were not generated.")
