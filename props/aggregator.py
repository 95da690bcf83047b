from gen import prop
A = "price_aggregator/src/"
LIB, ADM, UTL, VIE, MED = (A + x + ".rs" for x in ("lib", "admin", "utils", "views", "median"))
IH = ["inputs", "histories"]
NT = "No existing test runs the price aggregator: submissions, rounds and administration are untested."
ANY = "any caller, submission or batch, stored rounds and block time"

prop("A01", "Only registered oracles submit prices, recent ones, while running",
     "A price submission, single or in a batch, succeeds only while the aggregator is not paused, from a registered oracle, with a timestamp "
     "that is neither in the future nor more than 30 seconds old. Nothing else writes submissions or published prices.",
     IH, ANY, NT, [LIB, UTL], [("submission checks", UTL)])
prop("A02", "A price round holds one price per oracle and restarts when stale",
     "An oracle's first price in a round is recorded as given and a second one changes nothing. A submission later than 30 minutes after the "
     "round's first one drops that round and starts a new one. Closing a round clears its prices and timestamps; other pairs are untouched.",
     IH, ANY, NT, [UTL], [("round lifecycle", UTL)])
prop("A03", "A published price is the median of a full round",
     "A pair's price changes exactly when a submission brings its round to the required number, at most 50. The price published is the median of "
     "that round's prices (the mean of the two middle ones when even), with the block time and the next round number.",
     IH, ANY, NT, [UTL, MED], [("round closing", UTL), ("median", MED)])
prop("A04", "The required number of submissions can always be met",
     "Whenever the required number of submissions is set or oracles are removed, it ends between one and the smaller of 50 and the number of registered "
     "oracles. Only the owner changes either. Adding an oracle already registered keeps its record.",
     IH, ANY, NT, [ADM, UTL], [("oracle administration", ADM)])
prop("A05", "Aggregator views answer only while running, with the stored round",
     "Deployment and every upgrade leave the aggregator paused, and no own operation unpauses it. The price views fail while paused, and return the "
     "stored round of each pair asked for that has one.", IH, ANY, NT, [ADM, VIE], [("price views", VIE)])
prop("A06", "Oracle statistics and aggregator announcements are truthful",
     "Each submission adds one to its oracle's total, and one to its accepted count exactly when the price was recorded. Recorded, refused, "
     "dropped and published prices are announced exactly when that happens, with their pair, round and values.",
     IH, ANY, NT, [UTL, A + "events.rs"], [("statistics and events", UTL)])
