MAP += [("unknown members of the root","C24"),("a parser can be used again","C06"),("don't take a colon in the path","C24"),
("don't hand out the binary chunk twice","C17"),("a static vector that was moved","C17"),
("validate every reference","C25"),("validate the references of the rigid","C25"),("validate that accessors and buffer views","C25"),("validate that the nodes","C25"),("use the size of the destination","C25"),
]
WRONG = {}
KNOWN = [
]
