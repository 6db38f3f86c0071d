PROPS = {
    "C01": {"mc": [("c01.cpp", "std")]},
    "C02": {"mc": [("c01.cpp", "std")]},
    "C03": {"mc": [("c03.cpp", "std")]},
    "C04": {"mc": [("c04.cpp", "std"), ("c13.cpp", "std")], "seq": [{"file": "s04.cpp", "config": "std", "shards": 8}]},
    "C05": {"mc": [("c05.cpp", "std")]},
    "C06": {"mc": [("c06.cpp", "std")], "seq": [{"file": "s04.cpp", "config": "std", "shards": 4}]},
    "C07": {"mc": [("c07.cpp", "std"), ("c13.cpp", "std")]},
    "C08": {"mc": [("c08.cpp", "std")]},
    "C09": {"mc": [("c09.cpp", "std")]},
    "C10": {"mc": [("c10.cpp", "std")]},
    "C11": {"mc": [("c11.cpp", "std"), ("c10.cpp", "std")]},
    "C12": {"seq": [{"file": "s12.cpp", "config": "std", "flavor": "plain", "shards": 8}]},
    "C13": {"mc": [("c13.cpp", "std")], "seq": [{"file": "s13.cpp", "config": "std", "shards": 8}]},
    "C14": {"seq": [{"file": "s14.cpp", "config": "std", "flavor": "plain", "shards": 8}]},
    "C15": {"seq": [{"file": "s15.cpp", "config": "std", "flavor": "plain", "shards": 8}]},
    "C20": {"probe": "s20_probe.cpp", "seq": [{"file": "s20.cpp", "config": "std", "shards": 4}, {"file": "s20.cpp", "config": "dyn", "shards": 4}]},
    "C21": {"mc": [("c21.cpp", "std")], "seq": [{"file": "s21.cpp", "config": "std", "shards": 8}, {"file": "s21.cpp", "config": "std", "flavor": "ndebug", "shards": 8}]},
    "C17": {"mc": [("c16.cpp", "std"), ("c16.cpp", "dynmsg")], "seq": [{"file": "s17.cpp", "config": "std", "shards": 4}, {"file": "s17.cpp", "config": "dynmsg", "shards": 4}]},
    "C18": {"seq": [{"file": "s18.cpp", "config": "dyn", "shards": 8}]},
    "C19": {"mc": [("c19.cpp", "dyn")]},
    "C22": {"mc": [("c22.cpp", "std")], "seq": [{"file": "s22.cpp", "config": "std", "shards": 5}]},
    "C23": {"mc": [("c23.cpp", "std")]},
    "C24": {"mc": [("c24.cpp", "std")], "seq": [{"file": "s24.cpp", "config": "std", "shards": 8}]},
    "C25": {"mc": [("c25.cpp", "dyn"), ("c13.cpp", "std"), ("c19.cpp", "dyn"), ("c16.cpp", "std"), ("c21.cpp", "std")]},
    "C16": {"mc": [("c16.cpp", "std")], "seq": [{"file": "s16.cpp", "config": "std", "shards": 3}, {"file": "s16.cpp", "config": "full", "shards": 3}]},
}
