import json,subprocess
L="""C20 5fba756 Store.rescan gave several items to one requester
C20 a8d164f from_store with a key took the item from the wrong store
C20 1c1d556 a store requester was dequeued only after the item moved, so it could be honored twice
C12 94bc652 preemption bumped more claimers than needed
C15 8b8a3ba wait with "$" in an any-of wait compared with the wrong value
C05 7f7f126 request() without resources left the component without a proper status
C23 4e390ec random_seed seeded the global stream instead of the given one
C25 61c8ae9 suppress_trace/over3d/cap_now were not restored when the body raises
C32 5fee926 step dropped standby components that had not had their turn yet
C10 dd66c12 occupancy monitor had a wrong initial value
C11 e3ac7b2 honor_only_first/highest_priority resources did not retry after a request was honored
C11 6cb6f18 the walk over requesters used a stale successor
C11 7ea11c8 a failed request did not retry honor_only_* resources
C25 17e63d3 Monitor.freeze did not restore the environment
C24 bd47007 Erlang ignored its time unit
C24 0b2c026 Constant.mean applied the time unit factor twice
C24 54838c6 Distribution.mean ignored the time unit factor
C24 1657596 Pdf/CumPdf mean of nested distributions
C24 6be6961 Pdf/Pmf with equal probabilities did not sample nested distributions
C03 4dc29cf ComponentGenerator mixed internal and user time frame
C03 de77157 disturbance ignored at_end
C28 212c392 disturbances were created in the default environment
C15 4ae60a3 wait_for ignored request_priority
C28 338f7b9 only one PeriodMonitor per monitor worked
C28 61cb3bf PeriodMonitor did not work in yieldless models and other environments
C28 8964f4c internal monitors/queues were created in the default environment instead of the owner's
C21 62d003c stats_only monitors reported min/max/duration without the part up to now
C21 a4d6ee9 _tally_off left a stale cache
C34 585a59f Monitor.slice without start or with an offset
C33 1f25359 Monitor.t reported the internal frame
C05 2114e83 an interrupted component kept its scheduled time
C04 15a0ec2 run() after a run that ended by an exception left two end events of main
C29 731750e remaining_duration could be set for a data component
C08 0130282 a resource mentioned several times in one request was counted once
C11 6ed8072 yieldless request of an anonymous resource suspended before the waiting requesters were served
C11 299c8c6 Resource.release released claims that were honored because of it
C11 b19487a what was left after preemption was not offered to other requesters
C11 ba3ba92 honoring a request that left the queue of another honor_only_... resource did not try that resource's next requester
C17 1f97677 Queue.append ignored its priority argument although documented as equal to add
C17 609ed03 Queue.insert at the end of the queue gave priority 0, so that the queue was not in order of priority any more
C34 2e302a5 Monitor.slice extended a value over the time the monitor was off
C34 74052f2 Monitor.slice with a stop after now left out what was tallied now
C34 0ecc096 Monitor.multiply and x_map dropped the weights
C34 9219281 Monitor.t_multiply lost the last value when its time times factor is now
C34 ff2f25d Monitor.slice of a weighted monitor failed when animating
C35 676f252 Pdf and CumPdf could sample 0 instead of a given value
C36 d55504e mean of External ignored positional parameters of a scipy distribution
C37 8bff371 ComponentGenerator with a sampled number of 1 (spread) ignored force_at
C31 94adf4a base_name() changed when an object with a plain name was renamed
C31 a128d18 renaming a queue or resource gave its monitors other names than at creation
C31 24a0319 requester queues of a Store without a name were called None.to_store_requesters
C34 a458d86 merging level monitors of different types took the off value of a monitor as a value
C34 d3e00cd slices of sliced, merged, mapped or multiplied monitors were empty
C34 e395513 Monitor.slice with modulo missed the period at the start and went on after now
C33 6bd2fee x_map and t_multiply of a stats_only monitor used an old record"""
out=[]
for l in L.splitlines():
    p,c,w=l.split(" ",2)
    full=subprocess.run(["git","-C","/repo","rev-parse",c],capture_output=True,text=True).stdout.strip()
    out.append(dict(kind="fixed",property=p,commit=full,entry=f"fixed: property={p} {full[:10]} {w}"))
json.dump(out,open("/verif/known_findings.json","w"),indent=1)
