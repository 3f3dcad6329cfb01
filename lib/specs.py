"""What decides each property: technique and level note for MANIFEST.json."""
T = "TLA+ specification model-checked with TLC; "
R = "TLC-generated behaviours (transition cover) replayed in the real code and random real executions validated line by line against the specification by TLC"
APP = T + R
NOTE_APP = ("ShutterApp.tla is explored exhaustively for small constants; the real application is bound to it by trace validation of "
            "every response over generated and random histories, so conformance is bounded by the histories run")
SPECS = {i: (APP, NOTE_APP) for i in ["A01", "A02", "A03", "A04", "A06", "A07", "A08"]}
SPECS["A05"] = (T + "recorded executions of several real replicas (crashes, failing saves, mempool noise) validated against Replicas.tla",
                "the contract is explored exhaustively for 2 replicas; real replicas are bound by validating recorded executions")
VIEW = ("KeyperView.tla is explored exhaustively for chains of up to 3 blocks (4 in the thorough tier); the real observe.Shutter is bound to it by "
        "validating its view after every step of generated and random synchronisation histories against a stand-in node")
SPECS["K01"] = (T + R, VIEW)
SPECS["S01"] = (T + R, "PureDKG.tla is explored exhaustively for 3 participants, one of them Byzantine (4 by simulation); the real puredkg is bound to it by "
                "validating every handler result, accusation, apology and final key of generated and random runs with 2-6 participants")
CHAIN = ("KeyperDKG.tla is explored exhaustively for two honest keypers and a Byzantine one (budgeted delays and Byzantine messages); real keypers on the real "
         "application are bound to it by validating every decision and key of generated and random runs with up to 6 keypers, restarts included")
SPECS["K02"] = (T + R, CHAIN)
SPECS["K08"] = (T + R, "KeyperDKG.tla is explored exhaustively for one keyper, three configs, two eons and 6 blocks (8 thorough); " + CHAIN.split("; ")[1])
EXEC = ("KeyperExec.tla is explored exhaustively for one keyper and small budgets of main chain events, keyper chain events, decisions and restarts; the real Decider is "
        "bound to it by validating every decision of generated and random histories with up to 3 real keypers, 4 configs and several eons")
SPECS["K03"] = (T + R, "EpochKey.tla is explored exhaustively for 3 keypers, threshold 2 and 4 keypers, threshold 3; the real epochkg (with the shlib release shuttermint uses and the "
                "tree's shlib) is bound to it by validating the keys after every share; " + EXEC)
for i in ["K04", "K05", "K06", "K07"]:
    SPECS[i] = (T + R, EXEC)
ACT = ("Actions.tla is explored exhaustively for 3 actions with budgets of node failures, crashes and world changes (4 actions in the thorough tier); the real fx package is bound "
       "to it by validating every request it makes to the nodes and every state of its queue file, over generated and random histories with crashes and node failures")
ACT += ("; KeyperLife.tla (the files and decisions of a whole keyper process, with crashes at any point) is explored exhaustively for small budgets and bound to real keypers "
        "(their Run, state file, queue file and sync tasks) by validating what they save, send and decide over random runs with crashes, restarts and failing nodes")
SPECS["K09"] = SPECS["K10"] = (T + R, ACT)
MAIN = ("MainChain.tla is explored exhaustively in three small worlds (configs, execution, slashing) of 5 blocks (7 in the thorough tier); the real contracts' bytecode and the real observe and "
        "contract packages are bound to it by validating every call's outcome, every synchronised view and every returned value of generated and random histories, with lagging and failing nodes")
for i in ["M01", "M02", "M03", "M04"]:
    SPECS[i] = (T + R, MAIN)
SPECS["O01"] = (T + R, "ConfigTool.tla (the commands against the contract's rules of MainChain.tla) is explored exhaustively for 4 commands within 14 blocks (6 within 18 in the thorough tier); the real shuttermint "
                "executable is bound to it by running it as a process against the real contract for generated and random histories of commands, files, keys, passing blocks and node failures")
SPECS["O02"] = (T + R, "Setup.tla is explored exhaustively for 5 commands (6 in the thorough tier) on one node, two keypers and their money; the real shuttermint executable is bound to it by running it as a "
                "process for generated and random histories of commands, lost and spoiled files, balances and node failures, and validating every file and balance afterwards")
SPECS["O03"] = (T + R, "Launch.tla is explored exhaustively for 4 commands (6 in the thorough tier); the real shuttermint executable is bound to it by running deploy and bootstrap as processes for generated and "
                "random histories of commands, configs, missing money, node failures and refused messages, and validating contracts, files and messages afterwards")
SPECS["O04"] = (T + R, "KeyperStart.tla is explored exhaustively for 3 starts (5 in the thorough tier) with every field right, different, missing or wrong, in the file or the environment, and damaged databases; the real "
                "keyper command is bound to it by starting it as a process for generated and random histories and validating how it ends, what it sends to which node and every file it touches")
SPECS["E01"] = (T + R, "System.tla (users, batches, secrets, execution) with the keypers' protocol is explored exhaustively for two correct keypers and a lying one, two transactions and three blocks, with restarts and "
                "progress in smaller instances (5 blocks and replaced eons in the thorough tier); whole instances of 1-5 real keyper processes, the real application, the contracts on an EVM and users are bound to it by "
                "validating shares given up, calls executed and what is left over in generated and random histories with kills, restarts, liars and config changes")
SPECS["S02"] = (T + R, "Crypto.tla (ideal groups) is explored exhaustively for two eons of 3 keypers with up to 3 shares known, and the secret sharing it rests on (MCThreshold) for 3 keypers over "
                "GF(5); the real shcrypto is bound to it by validating every share, key, ciphertext and decryption of generated and random runs with up to 7 keypers and many message lengths")
SPECS["S03"] = (T + R, "Wire.tla defines which strings every decoder accepts and is explored for strings of up to 2 pieces (4 in the thorough tier); the real decoders are bound to it by validating "
                "their result, the value left behind and what is written back for generated and random right and wrong encodings")
SPECS["S04"] = (T + R, "Aggregate.tla (ideal groups) is explored exhaustively for 2 keys, 2 messages, 2 signatures (3 in the thorough tier) and aggregates of them; the real shbls is bound to it by "
                "validating every verification of generated and random runs, and its decoders as for S03")
SPECS["S05"] = (T + R, "Shuffle.tla is explored for all draws of lists of up to 5 transactions (7 in the thorough tier); the real shcrypto.Shuffle is bound to it by validating the orders of random lists of up "
                "to 300 transactions of changing contents and how thousands of keys spread over orders and positions")
