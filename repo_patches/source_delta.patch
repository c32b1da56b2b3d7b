From 682aba661cacc0c534a3d55479d55f1c9c504e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 01/66] fix: a trigger key pressed again (e.g. after the last
 stimulus) does not crash the simulation

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9460268..384cba8 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -201,7 +201,7 @@ class Simulation:
                 self.__printevent__(event)
                 self.__activate__(event)
             try:
-                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger):
+                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger) and not self.__environment_activate.triggered:
                     self.__environment_activate.succeed(value=(self.__env.trigger, self.__pr.env_interaction))
                 self.__pr.env_interaction = set()
             except AttributeError:
-- 
2.43.0


From b8c83c18299617a2282a723910ed5871078bfb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 02/66] fix: a trigger key pressed at the very end of a
 stimulus does not crash the simulation

---
 pyactr/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 384cba8..9ffb64e 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -107,7 +107,8 @@ class Simulation:
             yield pro | self.__environment_activate
             if self.__environment_activate.triggered:
                 self.__environment_activate = self.__simulation.event()
-                pro.interrupt()
+                if pro.is_alive:
+                    pro.interrupt()
             try:
                 event = next(generator)
             except StopIteration:
-- 
2.43.0


From 72fb883fb84c73859331645cd99a13e363130e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 03/66] fix: a new stimulus does not crash or bypass a visual
 module that is finishing another action

---
 pyactr/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9ffb64e..cd16691 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -74,7 +74,7 @@ class Simulation:
         
         self.__proc_activate = self.__simulation.event() #special event (lock) for procedural module
         
-        self.__procs_started = [] #list of processes that are started as a result of production rules
+        self.__procs_started = self.__pr.procs #list of processes that are started as a result of production rules
 
         #activate environment process, if environment present
         if self.__env:
@@ -132,7 +132,7 @@ class Simulation:
                     self.__interruptibles[proc[0]] = proc[1] #add new process interruptibles if the process can be interrupted according to ACT-R
                     self.__dict_extra_proc_activate[proc[0]].succeed() #activate modules that are used if not active
                 else:
-                    if proc[1] != self.__interruptibles[proc[0]]:
+                    if proc[0] in self.__interruptibles and proc[1] != self.__interruptibles[proc[0]]:
                         self.__interruptibles[proc[0]] = proc[1]
                         self.__dict_extra_proc[proc[0]].interrupt() #otherwise, interrupt them
 
-- 
2.43.0


From e4f6637d750e23e015e1fad0f77f67ea073d8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 04/66] fix: module events that arrive while the procedural
 module finds no rule are not lost

---
 pyactr/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index cd16691..6c7cc93 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -228,6 +228,7 @@ class Simulation:
         """
         Creates simulation process for procedural rules.
         """
+        self.__proc_activate = self.__simulation.event() #start the event
         pro = self.__simulation.process(self.__localprocess__(self.__pr._PROCEDURAL, self.__pr.procedural_process(self.__simulation.now))) #create procedural process
         self.__procs_started = yield pro #run the process, keep its return value
         while True:
@@ -248,9 +249,9 @@ class Simulation:
                             self.__dict_extra_proc[name].interrupt() #otherwise, interrupt them
             for _ in range(5):
                 yield self.__simulation.timeout(0) #move procedural process to the bottom; right now, this is a hack - it yields 0 timeout five times, so other processes get enough cycles to start etc.
+            self.__proc_activate = self.__simulation.event() #start the event
             pro = self.__simulation.process(self.__localprocess__(self.__pr._PROCEDURAL, self.__pr.procedural_process(self.__simulation.now)))
             self.__procs_started = yield pro
-            self.__proc_activate = self.__simulation.event() #start the event
 
     def run(self, max_time=1):
         """
-- 
2.43.0


From 3a2e6019926a585a62436eb06e0272b398f40d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 05/66] fix: a prepared motor or visual action is carried out
 even if the next one is requested at that instant

---
 pyactr/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 6c7cc93..8e2a7a2 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -173,6 +173,8 @@ class Simulation:
                     if not pro.triggered:
                         warnings.warn(f"Process in {name} interrupted")
                         pro.interrupt() #interrupt process
+                    elif pro.value:
+                        self.__simulation.process(self.__localprocess__(name, pro.value)) #the first part was already over, so what follows it is carried out
 
                 #if first extra process is followed by another process (returned as cont), do what follows; used only for motor and visual
                 else:
-- 
2.43.0


From 32fc95b0fd5449a156625fc33ae4b629a6482b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 06/66] fix: initial_time is used in realtime simulations

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 8e2a7a2..873d6cd 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -51,7 +51,7 @@ class Simulation:
         self.__realtime = realtime
 
         if not self.gui and realtime:
-            self.__simulation = simpy.RealtimeEnvironment()
+            self.__simulation = simpy.RealtimeEnvironment(initial_time=round(initial_time, 4))
 
         self.__trace = trace
 
-- 
2.43.0


From f4ef15adc4a233100e3c8a7a4414511112707a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 07/66] fix: the last two rules are compiled once at the end,
 whether the simulation is run or stepped

---
 pyactr/productions.py |  1 +
 pyactr/simulation.py  | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 50cd31e..5de1e9b 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -555,6 +555,7 @@ class ProductionRules:
         """
         if self.model_parameters["production_compilation"] and self.compile:
             compiled_rulename, re_created = self.rules.compile_rules(self.compile[0], self.compile[1], self.compile[2], self.buffers, self.model_parameters)
+            self.compile = [] #every pair is compiled only once
             if compiled_rulename:
                 self.ordered_rulenames.append(compiled_rulename)
             return compiled_rulename, re_created
diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 873d6cd..16b7ac4 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -260,10 +260,14 @@ class Simulation:
         Run simulation for the number of seconds specified in max_time.
         """
         if not self.gui:
+            while self.__simulation.peek() < max_time:
+                self.__simulation.step()
+            at_rest = self.__simulation.peek() == float("inf")
             self.__simulation.run(max_time)
         else:
             self.__runGUI__()
-        if self.__simulation.peek() == float("inf"):
+            at_rest = self.__simulation.peek() == float("inf")
+        if at_rest:
             self.__pr.compile_rules() #at the end of the simulation, run compilation (the last two rules are not yet compiled)
     
     def show_time(self):
@@ -283,11 +287,11 @@ class Simulation:
         """
         while True:
             self.__simulation.step()
+            if self.__simulation.peek() == float("inf"):
+                self.__pr.compile_rules() #at the end of the simulation, run compilation (the last two rules are not yet compiled)
             if self.current_event and self.current_event.action != self._UNKNOWN and self.current_event != self.__last_event:
                 self.__last_event = self.current_event
                 break
-            if self.__simulation.peek() == float("inf"):
-                self.__pr.compile_rules() #at the end of the simulation, run compilation (the last two rules are not yet compiled)
 
 
     def steps(self, count):
-- 
2.43.0


From 4951ae3c4d4307e7c82c33fe553e9ec6b215a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 08/66] fix: rules are selected by their current utility, also
 after learning and compilation

---
 pyactr/productions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 5de1e9b..8ab6703 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -497,6 +497,8 @@ class ProductionRules:
         
         self.last_rule_slotvals = self.current_slotvals.copy()
 
+        self.ordered_rulenames = sorted((x for x in self.ordered_rulenames if x in self.rules), key=lambda x: self.rules[x]['utility'], reverse=True) #utilities might have changed, or new rules might have been compiled
+
         for rulename in self.ordered_rulenames:
             self.used_rulename = rulename
             production = self.rules[rulename]["rule"]()
@@ -556,7 +558,7 @@ class ProductionRules:
         if self.model_parameters["production_compilation"] and self.compile:
             compiled_rulename, re_created = self.rules.compile_rules(self.compile[0], self.compile[1], self.compile[2], self.buffers, self.model_parameters)
             self.compile = [] #every pair is compiled only once
-            if compiled_rulename:
+            if compiled_rulename and compiled_rulename not in self.ordered_rulenames:
                 self.ordered_rulenames.append(compiled_rulename)
             return compiled_rulename, re_created
         else:
-- 
2.43.0


From 01c66658233c718fc60782ef8e000cb868b6b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 09/66] fix: motor preparation is shortened only if the
 previous movement was similar

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 8ab6703..6b6ca40 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -911,8 +911,8 @@ class ProductionRules:
         if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
             self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
             preparation = 0
-        elif motorbuffer.last_key[0] and (newchunk.key in motorbuffer.PRESSING) == (motorbuffer.last_key[0] in motorbuffer.PRESSING):
-            if (newchunk.key in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0] in motorbuffer.LEFT_HAND): 
+        elif motorbuffer.last_key[0] and (newchunk.key.values in motorbuffer.PRESSING) == (motorbuffer.last_key[0].values in motorbuffer.PRESSING):
+            if (newchunk.key.values in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0].values in motorbuffer.LEFT_HAND): 
                 preparation -= 0.1 #the same hand, same mvt cuts down by 100 ms; Lisp ACT-R also has the same finger which cuts down by 150 ms; this is not currently implemented
             else:
                 preparation -= 0.05 #a different hand, same mvt cuts down by 50 ms
-- 
2.43.0


From 301ec6df5af95cb9bf7840aed77f3116e9b3c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 10/66] fix: motor_prepared is not switched off for later
 simulations of the same model

---
 pyactr/productions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 6b6ca40..8906b7c 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -908,8 +908,7 @@ class ProductionRules:
         preparation = time_presses[0]
 
         #preparation can be modified if previous key was the same or similar -- see if-clauses below
-        if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
-            self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
+        if newchunk.key == motorbuffer.last_key[0] or (self.model_parameters["motor_prepared"] and not motorbuffer.last_key[0]): #motor_prepared is only used for the 1st key press
             preparation = 0
         elif motorbuffer.last_key[0] and (newchunk.key.values in motorbuffer.PRESSING) == (motorbuffer.last_key[0].values in motorbuffer.PRESSING):
             if (newchunk.key.values in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0].values in motorbuffer.LEFT_HAND): 
-- 
2.43.0


From 810cbf9c2d828b99c8cbb119c97291acd30a4944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 11/66] fix: a third key press does not overlap the second one,
 and the motor module is busy while movements are waiting

---
 pyactr/productions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 8906b7c..f3ef23d 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -932,7 +932,7 @@ class ProductionRules:
         Carry out the rest of motor action. Motor action is split in two because of ACT-R assumption that the two parts can act independently of each other.
         """
         if motorbuffer.last_key[1]:
-            time = motorbuffer.last_key[1] # if something else is being pressed, wait for that to finish before starting initializing etc.
+            time = max(time, motorbuffer.last_key[1]) # if something else is being pressed, wait for that to finish before starting initializing etc.
         initiation = time_presses[1]
         execution = time_presses[2]
         movement_finish = time_presses[3]
@@ -943,11 +943,13 @@ class ProductionRules:
         
         time += initiation
         
-        motorbuffer.last_key[1] = time + execution + movement_finish
+        finish = time + execution + movement_finish
+        motorbuffer.last_key[1] = finish
         
         yield Event(roundtime(time), name, 'INITIATION COMPLETE')
         
-        motorbuffer.processor = motorbuffer._FREE
+        if motorbuffer.preparation == motorbuffer._FREE and motorbuffer.last_key[1] == finish: #no other movement is being prepared or waits for this one
+            motorbuffer.processor = motorbuffer._FREE
         
         time += execution
         yield Event(roundtime(time), name, self._UNKNOWN)
@@ -961,9 +963,11 @@ class ProductionRules:
         yield Event(roundtime(time), name, 'MOVEMENT FINISHED')
         
         self.env_interaction.discard(otherchunk.key)
-        motorbuffer.state = motorbuffer._FREE
-        motorbuffer.execution = motorbuffer._FREE
-        motorbuffer.last_key[1] = 0
+        if motorbuffer.last_key[1] == finish: #no other movement waits for this one
+            motorbuffer.execution = motorbuffer._FREE
+            motorbuffer.last_key[1] = 0
+            if motorbuffer.preparation == motorbuffer._FREE:
+                motorbuffer.state = motorbuffer._FREE
 
     def LHStest(self, dictionary, actrvariables, update=False):
         """
-- 
2.43.0


From 039381bac34816df85bebe138537643c8253b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 12/66] fix: the visual buffer is cleared when encoding is
 over, not when it starts

---
 pyactr/productions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index f3ef23d..d957168 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -715,6 +715,7 @@ class ProductionRules:
         """
         visualbuffer.state = visualbuffer._BUSY
         time += extra_time
+        yield Event(roundtime(time), name, self._UNKNOWN) #the object is encoded (and the previous one is cleared) when encoding is over
         visualbuffer.current_focus = site #use it if visual focus is fully attention-based (internal) and not based on eye position; site is the position of attention
         yield from self.clear(name, visualbuffer, None, temp_actrvariables, time, freeing=False)
         visualbuffer.add(chunk, time)
-- 
2.43.0


From 6c5fe09e4d13a8e5a7183dfe2ae8567c8bfb451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 13/66] fix: shifting attention to an object that is gone fails
 instead of crashing the simulation

---
 pyactr/productions.py | 14 +++++++++++++-
 pyactr/vision.py      |  4 ++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index d957168..32fdc03 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -841,6 +841,14 @@ class ProductionRules:
         """
         newchunk, extra_time, site = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
 
+        if not newchunk:
+            visualbuffer.preparation = visualbuffer._FREE
+            if visualbuffer.execution == visualbuffer._FREE:
+                visualbuffer.processor = visualbuffer._FREE
+            visualbuffer.state = visualbuffer._ERROR
+            yield Event(roundtime(time), name, 'NO VISUAL OBJECT TO SHIFT ATTENTION TO')
+            return
+
         encoding = extra_time[0]
         preparation = extra_time[1]
         execution = extra_time[2]
@@ -885,7 +893,11 @@ class ProductionRules:
         yield Event(roundtime(time), name, f"SHIFT COMPLETE TO POSITION: {str(visualbuffer.current_focus)}")
         if encoding > preparation+execution:
             newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
-            yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
+            if not newchunk:
+                visualbuffer.state = visualbuffer._ERROR
+                yield Event(roundtime(time), name, 'NO VISUAL OBJECT TO ENCODE')
+            else:
+                yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
         visualbuffer.processor = visualbuffer._FREE
         visualbuffer.execution = visualbuffer._FREE
         visualbuffer.state = visualbuffer._FREE
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 5e7a2bd..0611a9d 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -333,6 +333,7 @@ class Visual(buffers.Buffer):
             raise ACTRError(f"Shifting towards the chunk '{otherchunk}' is impossible; {arg}")
 
         vis_delay = None
+        stim = None
 
         for each in self.environment.stimulus:
             try:
@@ -343,6 +344,9 @@ class Visual(buffers.Buffer):
             except (AttributeError, KeyError):
                 raise ACTRError("The chunk in the visual buffer is not defined correctly. It is not possible to move attention.")
 
+        if stim is None: #nothing is there (any more)
+            return None, None, None
+
         new_chunk = chunk_from_stimulus(stim, "visual", position=False) #creates new chunk
 
         if model_parameters['emma']:
-- 
2.43.0


From b0e63ab8c3a41319326c784cee4c91c840d6d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 14/66] fix: the visual module is busy while another shift of
 attention is prepared or waiting

---
 pyactr/productions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 32fdc03..596374f 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -884,7 +884,8 @@ class ProductionRules:
         preparation = extra_time[1]
         execution = extra_time[2]
         
-        visualbuffer.last_mvt = time + execution
+        finish = time + execution
+        visualbuffer.last_mvt = finish
 
         time += execution
 
@@ -898,9 +899,12 @@ class ProductionRules:
                 yield Event(roundtime(time), name, 'NO VISUAL OBJECT TO ENCODE')
             else:
                 yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
-        visualbuffer.processor = visualbuffer._FREE
-        visualbuffer.execution = visualbuffer._FREE
-        visualbuffer.state = visualbuffer._FREE
+        if visualbuffer.last_mvt == finish: #no other shift waits for this one
+            visualbuffer.execution = visualbuffer._FREE
+            if visualbuffer.preparation == visualbuffer._FREE:
+                visualbuffer.processor = visualbuffer._FREE
+                if visualbuffer.state != visualbuffer._ERROR:
+                    visualbuffer.state = visualbuffer._FREE
         visualbuffer.attend_automatic = True
         #the following lines - if we think that automatic buffering should be repeated after being done with shift
         #if visualbuffer.attend_automatic:
-- 
2.43.0


From c52b041dae4469d88768fc8d2a1e2f89e1a7ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 15/66] fix: the visual module does not stay busy when a new
 stimulus replaces a shift of attention

---
 pyactr/productions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 596374f..8b3c436 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -816,6 +816,9 @@ class ProductionRules:
         """
         visualbuffer.state = visualbuffer._BUSY
         visualbuffer.autoattending = visualbuffer._BUSY
+        visualbuffer.preparation = visualbuffer._FREE #this replaces a shift of attention that was still prepared
+        if visualbuffer.execution == visualbuffer._FREE:
+            visualbuffer.processor = visualbuffer._FREE
         foveal_distance = utilities.calculate_distance(1, visualbuffer.environment.size, visualbuffer.environment.simulated_screen_size, visualbuffer.environment.viewing_distance)
         cf = tuple(visualbuffer.current_focus)
         newchunk = None
@@ -853,6 +856,7 @@ class ProductionRules:
         preparation = extra_time[1]
         execution = extra_time[2]
 
+        visualbuffer.autoattending = visualbuffer._FREE #a shift of attention replaces automatic buffering
         visualbuffer.preparation = visualbuffer._BUSY
         visualbuffer.processor = visualbuffer._BUSY
         visualbuffer.state = visualbuffer._BUSY
-- 
2.43.0


From e8426d305935df08db6cc29e2d91fb1690601ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 16/66] fix: the visual location module is free after automatic
 search

---
 pyactr/productions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 8b3c436..71a73a3 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -806,8 +806,10 @@ class ProductionRules:
                 visualbuffer.modify(newchunk, stim)
             else:
                 visualbuffer.add(newchunk, stim, time)
+            visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
         else:
+            visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, self._UNKNOWN)
 
     def automatic_buffering(self, name, visualbuffer, stim, time):
-- 
2.43.0


From 6743a66ccd2d5317b7b986c1ecac9710a10bcfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 17/66] fix: clearing, modifying or overwriting a buffer does
 not mark its module free while it works on a request

---
 pyactr/productions.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 71a73a3..b2554ba 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -586,9 +586,8 @@ class ProductionRules:
             updated = self.buffers[submodule_name]
             production = getattr(self, self._RHSCONVENTIONS[code])(submodule_name, updated, dictionary[key], self.__actrvariables, time)
 
-            updated.state = updated._BUSY
-
             if production.__name__ in self._INTERRUPTIBLE:
+                updated.state = updated._BUSY
                 self.procs.append((submodule_name, production)) 
             else:
                 yield from production #this either moves production on to modify, retrieve etc. (see RHSCONVENTIONS for the list), or it appends that process to the processes that have to be done as an extra process by model, i.e., not directly by productions (distinction made as in ACT-R)
@@ -604,15 +603,18 @@ class ProductionRules:
         """
         Add an extra test to a buffer.
         """
+        pending = tested.state == tested._BUSY #is the module still working on a request?
         tested.state = tested._BUSY
         self.extra_tests[name] = test
-        tested.state = tested._FREE
+        if not pending:
+            tested.state = tested._FREE
         yield Event(roundtime(time), name, "EXTRA TEST ADDED")
 
     def clear(self, name, cleared, optional, temp_actrvariables, time, freeing=True):
         """
         Clear a buffer. The 'freeing' argument specifies whether the state should be considered FREE (if the rule is run alone) or not (if it is embedded in another rule).
         """
+        pending = cleared.state == cleared._BUSY #is the module still working on a request?
         cleared.state = cleared._BUSY
         try:
             cleared.clear(time) #clear the buffer; works for decl. mem. buffers (tied to a specific decl. mem)
@@ -627,26 +629,29 @@ class ProductionRules:
                 except KeyError:
                     raise ACTRError(f"It is not specified to what memory the buffer {name} should be cleared")
         yield Event(roundtime(time), name, "CLEARED")
-        if freeing:
+        if freeing and not pending:
             cleared.state = cleared._FREE
 
     def execute(self, name, executed, executecommand, temp_actrvariables, time):
         """
         Execute a command.
         """
+        pending = executed.state == executed._BUSY #is the module still working on a request?
         executed.state = executed._BUSY
         for each in executecommand:
             try:
                 getattr(executed, each[0])(*each[1])
             except TypeError:
                 getattr(executed, each[0])(each[1])
-        executed.state = executed._FREE
+        if not pending:
+            executed.state = executed._FREE
         yield Event(roundtime(time), name, "EXECUTED")
 
     def modify(self, name, modified, otherchunk, temp_actrvariables, time):
         """
         Modify a buffer chunk.
         """
+        pending = modified.state == modified._BUSY #is the module still working on a request?
         modified.state = modified._BUSY
         if self.model_parameters['production_compilation']:
             RHSdict = otherchunk._asdict()
@@ -662,7 +667,8 @@ class ProductionRules:
             self.current_slotvals[name] = slotvaldict
 
         modified.modify(otherchunk, temp_actrvariables) #time variable is currently not used - needed if modification would cost time
-        modified.state = modified._FREE
+        if not pending:
+            modified.state = modified._FREE
         yield Event(roundtime(time), name, "MODIFIED")
 
     def modify_request(self, name, modified, otherchunk, temp_actrvariables, time):
@@ -694,6 +700,7 @@ class ProductionRules:
         """
         Overwrite a buffer.
         """
+        pending = updated.state == updated._BUSY #is the module still working on a request?
         updated.state = updated._BUSY
         extra_time = utilities.calculate_setting_time(updated)
         time += extra_time
@@ -706,7 +713,8 @@ class ProductionRules:
         updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
 
         created_elem = list(updated)[0]
-        updated.state = updated._FREE
+        if not pending:
+            updated.state = updated._FREE
         yield Event(roundtime(time), name, f"WROTE A CHUNK: {str(created_elem)}")
 
     def visualencode(self, name, visualbuffer, chunk, temp_actrvariables, time, extra_time, site):
-- 
2.43.0


From a80ff22354a37f08af55622380909b8616cfac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 18/66] fix: strict harvesting does not interrupt a request the
 module is working on

---
 pyactr/productions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index b2554ba..c6f10c5 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -597,7 +597,7 @@ class ProductionRules:
             for key in temp_actrvariables:
                 submodule_name = key[1:]
                 if submodule_name in self.buffers:
-                    self.procs.append((submodule_name, self.clear(submodule_name, self.buffers[submodule_name], None, self.__actrvariables, time)))
+                    yield from self.clear(submodule_name, self.buffers[submodule_name], None, self.__actrvariables, time) #cleared directly, so that a request the module is working on is not interrupted
 
     def extra_test(self, name, tested, test, temp_actrvariables, time):
         """
-- 
2.43.0


From 8dfdbab851af2216992bf409a08fc041e292013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 19/66] fix: activation can be calculated when presentations of
 a chunk took place at the current time

---
 pyactr/declarative.py | 2 ++
 pyactr/utilities.py   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 17c5eea..8b295ed 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -184,6 +184,8 @@ class DecMemBuffer(buffers.Buffer):
         """
         Retrieve a chunk from declarative memory that matches otherchunk.
         """
+        time = utilities.roundtime(time) #presentations are stored with rounded times
+
         model_parameters = model_parameters.copy()
         model_parameters.update(self.model_parameters)
 
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 3381c09..0f87694 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -425,6 +425,7 @@ def baselevel_learning(current_time, times, bll, decay, activation=None, optimiz
     Calculate base-level learning: B_i = ln(sum(t_j^{-decay})) for t_j = current_time - t for t in times.
     """
     if bll:
+        times = times[times != current_time] #this removes chunk storages that are stored at current time (blocking simultaneous retrieval)
         if len(times) > 0:
             with warnings.catch_warnings(record=True):
                 warnings.filterwarnings('error')
-- 
2.43.0


From a24bc31c7200a5fbc0da2cd10cd19d263811f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 20/66] fix: similarities between chunks are not shared by all
 models

---
 pyactr/declarative.py | 2 ++
 pyactr/model.py       | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 8b295ed..dbcbe2d 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -119,6 +119,7 @@ class DecMemBuffer(buffers.Buffer):
         self.recent = collections.deque()
         self.__finst = finst
         self.activation = None #activation of the last retrieved element
+        self.similarities = {} #similarities between chunks (used in partial matching)
 
         #parameters
         self.model_parameters = {}
@@ -196,6 +197,7 @@ class DecMemBuffer(buffers.Buffer):
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"Retrieving the chunk '{otherchunk}' is impossible; {arg}")
         chunk_tobe_matched = chunks.Chunk(otherchunk.typename, **mod_attr_val)
+        chunk_tobe_matched._similarities = self.similarities
 
         max_A = float("-inf")
 
diff --git a/pyactr/model.py b/pyactr/model.py
index c2c4197..1f0a37d 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -322,6 +322,7 @@ class ACTRModel:
 
         used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters)
 
-        chunks.Chunk._similarities = self.__similarities
+        for name in self.retrievals:
+            self.retrievals[name].similarities = self.__similarities #every model uses its own similarities
 
         return simulation.Simulation(self.__env, realtime, trace, gui, self.__buffers, used_productions, initial_time, environment_process, **kwargs)
-- 
2.43.0


From 4fa05f3738ff081b724ae2f4e938f269daf93a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 21/66] fix: environment_process starts after, not before,
 initial_time if start_time is specified

---
 pyactr/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index 44e0ae9..87750b7 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -78,8 +78,8 @@ class Environment:
         (Use this key with caution: visual_location searches cannot return an object if it contains
         an externally-visible attribute that is not present in the search)
         """
-        #subtract start_time from initial_time
-        start_time = self.initial_time - start_time
+        #add start_time to initial_time
+        start_time = self.initial_time + start_time
         #make all arguments iterables if they are not yet
         if isinstance(stimuli, str) or isinstance(stimuli, collections.abc.Mapping) or not isinstance(stimuli, collections.abc.Iterable):
             stimuli = [stimuli]
-- 
2.43.0


From f044387b71234beca3436cd31a91163718d7b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 22/66] fix: rounding of the time of environment events does
 not crash the simulation

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 16b7ac4..be97718 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -141,7 +141,7 @@ class Simulation:
         Runs local environment process.
         """
         try:
-            yield self.__simulation.timeout(event.time-self.__simulation.now)
+            yield self.__simulation.timeout(max(0, event.time-self.__simulation.now)) #never negative; event.time is rounded
         except simpy.Interrupt:
             pass
         else:
-- 
2.43.0


From 76992c4d20d027b0d09ee055783ccd7b4cf02e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 23/66] fix: a slot that the matched chunk lacks is treated as
 an empty slot

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 58ea8f2..ea9f374 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -256,7 +256,7 @@ class Chunk(Sequence):
             try:
                 matching_val = getattr(otherchunk.actrchunk, x[0] + "_") #get the value of attr
             except AttributeError:
-                matching_val = None #if it is missing, it must be None
+                matching_val = self.__emptyvalue #if it is missing, it must be empty
 
             if isinstance(matching_val, utilities.VarvalClass):
                 matching_val = matching_val.values #the value might be written using _variablesvalues namedtuple; in that case, get it out
-- 
2.43.0


From 3647bec4d8c2a867c150852f895731c7d08ff80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 24/66] fix: unbound negated variables and variables bound to
 nothing are handled in actions of rules

---
 pyactr/utilities.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 0f87694..2dd850a 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -293,7 +293,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                     try:
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
-                        raise ACTRError(f"Object '{var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+                        raise ACTRError(f"Object '{neg_var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
         if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
             result = "".join(sorted([temp_result, result], reverse=True))
         elif result and temp_result != result:
@@ -303,12 +303,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                 result = temp_result
             except UnboundLocalError: #temp_result wasn't used
                 pass
-    try:
-        if temp_result:
-            returned_tuple = VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
-    except UnboundLocalError: #temp_result was never used, which means that no values were defined
-        returned_tuple = VarvalClass(variables=None, values=None, negvariables=(), negvalues=tuple(neg_result))
-    return returned_tuple
+    return VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result)) #result is None if no values were defined
 
 def match(dict2, slotvals, name1, name2):
     """
-- 
2.43.0


From 0f6f594cabcca7bf28aba6eda6e8cf8a6f2feeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 25/66] fix: modifying an empty buffer reports the problem; a
 modification that is not possible does not empty the buffer

---
 pyactr/buffers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 875ada4..15f4b83 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -99,11 +99,13 @@ class Buffer(collections.abc.MutableSet):
         """
         if actrvariables == None:
             actrvariables = {}
-        elem = self._data.pop()
+        if not self._data:
+            raise utilities.ACTRError(f"The modification by the chunk '{otherchunk}' is impossible; there is no chunk to modify in the buffer")
         try:
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1]) for x in otherchunk.removeunused()} #creates dict of attr-val pairs according to otherchunk
         except utilities.ACTRError as arg:
-            raise utilities.ACTRError(f"The modification by the chunk '{otherchunk} is impossible; {arg}")
+            raise utilities.ACTRError(f"The modification by the chunk '{otherchunk}' is impossible; {arg}")
+        elem = self._data.pop()
         elem_attr_val = {x[0]: x[1] for x in elem}
         elem_attr_val.update(mod_attr_val) #updates original chunk with attr-val from otherchunk
         mod_chunk = chunks.Chunk(otherchunk.typename, **elem_attr_val) #creates new chunk
-- 
2.43.0


From ba96d1b6bd2015cb0fb4e5befbde577594ee99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 26/66] fix: production rules without a name can be defined

---
 pyactr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index 1f0a37d..7b884ca 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -232,7 +232,7 @@ class ACTRModel:
         {'=g': example(value= two)}
         """
         if not name:
-            name = "unnamedrule" + productions.Productions._undefinedrulecounter
+            name = "unnamedrule" + str(productions.Productions._undefinedrulecounter)
             productions.Productions._undefinedrulecounter += 1
         temp_dictRHS = {v: k for k, v in utilities._RHSCONVENTIONS.items()}
         temp_dictLHS = {v: k for k, v in utilities._LHSCONVENTIONS.items()}
-- 
2.43.0


From b8006d4849ba86c4a78f54d75106d59b62cdfe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 27/66] fix: a motor command or a key that is missing is
 reported

---
 pyactr/motor.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyactr/motor.py b/pyactr/motor.py
index bb7b718..810e24f 100644
--- a/pyactr/motor.py
+++ b/pyactr/motor.py
@@ -52,13 +52,21 @@ class Motor(buffers.Buffer):
 
         new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
 
-        if new_chunk.cmd.values not in utilities.CMDMANUAL:
-            raise ACTRError(f"Motor module received an invalid command: '{new_chunk.cmd.values}'. The valid commands are: '{utilities.CMDMANUAL}'")
+        cmd = getattr(new_chunk.cmd, "values", None)
+        key = getattr(new_chunk.key, "values", None)
 
-        if new_chunk.cmd.values == utilities.CMDPRESSKEY:
-            pressed_key = new_chunk.key.values.upper() #change key into upper case
-            mod_attr_val["key"] = pressed_key
-            new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
+        if cmd not in utilities.CMDMANUAL:
+            raise ACTRError(f"Motor module received an invalid command: '{cmd}'. The valid commands are: '{utilities.CMDMANUAL}'")
+
+        if cmd != utilities.CMDPRESSKEY:
+            raise ACTRError(f"Motor module received no command: '{new_chunk}'")
+
+        if not isinstance(key, str):
+            raise ACTRError(f"Motor module received an invalid key: {key}")
+
+        pressed_key = key.upper() #change key into upper case
+        mod_attr_val["key"] = pressed_key
+        new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
         if pressed_key not in self.LEFT_HAND and new_chunk.key.values not in self.RIGHT_HAND:
             raise ACTRError(f"Motor module received an invalid key: {pressed_key}")
 
-- 
2.43.0


From d6ba11c0ca04c452e5da67362e424bd973afdb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 28/66] fix: GUI ends when the simulation fails, and shows the
 last screen and focus

---
 pyactr/simulation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index be97718..336df21 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -332,8 +332,9 @@ class Simulation:
         """
         Check every 10 ms if there is something new in the queue.
         """
+        running = self.__running #checked first, so that everything put in the queue before the end is shown
         self.__environmentGUI.processIncoming(  )
-        if not self.__running:
+        if not running:
             # This is a brutal stop of the system. Should more cleanup take place?
             import sys
             sys.exit(1)
@@ -352,6 +353,9 @@ class Simulation:
                 self.__simulation.step()
             except simpy.core.EmptySchedule:
                 self.__endGui__()
+            except BaseException:
+                self.__endGui__() #the window should not stay open if the simulation failed
+                raise
             if self.current_event and self.__last_event != self.current_event:
                 self.__last_event = self.current_event
                 if self.__realtime:
@@ -363,9 +367,9 @@ class Simulation:
             if self.__env.stimulus and old_stimulus != self.__env.stimulus:
                 old_stimulus = self.__env.stimulus
                 self.__queue.put({"stim": self.__env.stimulus})
-            if self.__env.current_focus and old_focus != self.__env.current_focus:
+            if self.__env.current_focus and old_focus != tuple(self.__env.current_focus):
                 old_focus = tuple(self.__env.current_focus)
-                self.__queue.put({"focus": self.__env.current_focus})
+                self.__queue.put({"focus": old_focus})
 
 
     def __endGui__(self):
-- 
2.43.0


From ddf9deb805b1adbb0d39c1e6812ace819187dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 29/66] fix: actions that follow overwriting of a delayed
 buffer take place after it

---
 pyactr/productions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index c6f10c5..70739aa 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -591,6 +591,8 @@ class ProductionRules:
                 self.procs.append((submodule_name, production)) 
             else:
                 yield from production #this either moves production on to modify, retrieve etc. (see RHSCONVENTIONS for the list), or it appends that process to the processes that have to be done as an extra process by model, i.e., not directly by productions (distinction made as in ACT-R)
+                if self._RHSCONVENTIONS[code] == "overwrite":
+                    time += utilities.calculate_setting_time(updated) #actions that follow take place after the chunk was written
 
         #this last part is strict harvesting
         if self.model_parameters["strict_harvesting"]:
-- 
2.43.0


From 2f58ed6119f366935d505c516e16fd8370c67543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 30/66] fix: rules are not compiled if the retrieval between
 them is not used by the second one

---
 pyactr/productions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 70739aa..d61790b 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -410,6 +410,9 @@ class Productions(collections.UserDict):
 
         matched, valued = utilities.match(pro2, slotvals, rule_name1, rule_name2)
 
+        if any(isinstance(slotvals[buff], collections.abc.MutableSequence) for buff in slotvals):
+            return False, False #the second rule does not use what was retrieved, the retrieval cannot be compiled away
+
         new_1rule = self.__substitute__(self[rule_name1], matched, valued)
         
         new_2rule = self.__substitute__(new_2rule, matched, valued)
-- 
2.43.0


From 7c2979afa9011dbc9625cff61bc139f6ab842108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 31/66] fix: actions of a compiled rule carry no negative
 conditions and no slots of a chunk that is replaced

---
 pyactr/productions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index d61790b..c8d95fe 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -219,8 +219,8 @@ class Productions(collections.UserDict):
                 if utilities._RHSCONVENTIONS[code] in {"execute", "clear", "extra_test"}:
                     continue
                 
-                if buff not in slotvals:
-                    continue
+                if buff not in slotvals or utilities._RHSCONVENTIONS[code] not in {"modify", "modify_request"}:
+                    continue #only modifications build on what the first rule left in the buffer
 
                 pro1buff = slotvals[buff]
                 
@@ -231,7 +231,7 @@ class Productions(collections.UserDict):
                 for slot in pro2buff:
                     if pro1buff and slot in pro1buff:
                         varval = utilities.merge_chunkparts(pro2buff[slot], pro1buff[slot])
-                        mod_attr_val[slot] = varval
+                        mod_attr_val[slot] = varval._replace(negvalues=(), negvariables=()) #negative conditions (on the slots that are not modified) are not actions
                     else:
                         mod_attr_val[slot] = pro2buff[slot]
 
-- 
2.43.0


From e2c4493e61d82f6de3faedbe1595f6260438b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 32/66] fix: a compiled rule empties the slots that are empty
 in the chunk set by its first parent

---
 pyactr/productions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index c8d95fe..4151799 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -226,12 +226,16 @@ class Productions(collections.UserDict):
                 
                 pro2buff = pro2[key]._asdict()
 
+                replaced = any(temp_key[1:] == buff and utilities._RHSCONVENTIONS[temp_key[0]] in {"retrieveorset", "overwrite"} for temp_key in pro1) #does the first rule replace the chunk that is modified?
+
                 mod_attr_val = {}
                 
                 for slot in pro2buff:
                     if pro1buff and slot in pro1buff:
                         varval = utilities.merge_chunkparts(pro2buff[slot], pro1buff[slot])
                         mod_attr_val[slot] = varval._replace(negvalues=(), negvariables=()) #negative conditions (on the slots that are not modified) are not actions
+                        if replaced and not varval.values and not varval.variables:
+                            mod_attr_val[slot] = varval._replace(values=str(utilities.EMPTYVALUE)) #the replaced chunk has nothing in this slot
                     else:
                         mod_attr_val[slot] = pro2buff[slot]
 
-- 
2.43.0


From cb7fabac89438312c6f2d16404aea2214840a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 33/66] fix: rules are not compiled into a rule that could not
 be fired

---
 pyactr/productions.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 4151799..76b8570 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -377,6 +377,28 @@ class Productions(collections.UserDict):
 
         return False
 
+    def __check_bound_variables__(self, rule):
+        """
+        Check that every variable in the actions of a (compiled) rule is bound by its conditions, so that the rule can be fired.
+        """
+        production = rule['rule']()
+        bound = set()
+        conditions = next(production)
+        for key in conditions:
+            if utilities._LHSCONVENTIONS[key[0]] == "test":
+                bound.add(key[1:])
+                bound.update(utilities.splitting(elem[1]).variables for elem in conditions[key])
+        actions = next(production)
+        for key in actions:
+            if utilities._RHSCONVENTIONS[key[0]] in {"modify", "retrieveorset", "overwrite", "modify_request"}:
+                for elem in actions[key]:
+                    varval = utilities.splitting(elem[1])
+                    if varval.variables and varval.variables not in bound:
+                        return False
+                    if not bound.issuperset(varval.negvariables):
+                        return False
+        return True
+
     def compile_rules(self, rule_name1, rule_name2, slotvals, buffers, model_parameters):
         """
         Rule compilation.
@@ -430,6 +452,9 @@ class Productions(collections.UserDict):
                 slotvals[buff] = mod_attr_val
 
         new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieval)
+
+        if not self.__check_bound_variables__(new_rule):
+            return False, False
         
         idx = 0
         re_created = "CREATED"
-- 
2.43.0


From 3794c514ae523c28ba0dfee25aa0c18dde358f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 34/66] fix: the name of a chunk stands for the chunk in
 negated values, too

---
 pyactr/chunks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index ea9f374..a522189 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -390,6 +390,8 @@ def createchunkdict(chunk):
                 else:
                     updating = sp_dict[elem[idx][0]]
                     update_val = elem[idx][1]
+                    if updating == "negvalues":
+                        update_val = Chunk._chunks.get(update_val, update_val) #negated names of chunks stand for chunks, just like names of chunks that are not negated
 
             except (KeyError, IndexError): #indexerror --> only a string is present; keyerror: the first element in elem[idx] is not a special symbol (in sp)
                 if elem[idx][0] == "'" or elem[idx][0] == '"':
-- 
2.43.0


From 27df99558f7c8e609fcb833ef47b8ec2d508e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 35/66] fix: rules are not compiled if the second one harvests
 what the first one set

---
 pyactr/productions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 76b8570..946d8b7 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -330,7 +330,7 @@ class Productions(collections.UserDict):
 
         return Production(rule=func, utility=rule['utility'], reward=rule['reward'])
 
-    def __check_valid_compilation__(self, rule_name1, rule_name2, buffers):
+    def __check_valid_compilation__(self, rule_name1, rule_name2, buffers, model_parameters):
         """
         Check that production compilation is valid. There are several cases in which compilation is blocked because it would result in an unsafe rule (a rule that might differ in its output compared to the original rule1 and rule2 firing one after the other). The function returns True if the production compilation is unsafe and should be stopped.
         """
@@ -347,6 +347,12 @@ class Productions(collections.UserDict):
         for key in pro12:
             code = key[0]
             buff = key[1:]
+
+            #Checking strict harvesting: If the first production sets a buffer and the second one harvests it, the compiled rule (which would only set the buffer) would not harvest it.
+            if model_parameters["strict_harvesting"] and code not in {utilities._RHSCONVENTIONS_REVERSED["extra_test"], utilities._RHSCONVENTIONS_REVERSED["execute"]}:
+                if not isinstance(buffers[buff], declarative.DecMemBuffer) and utilities._LHSCONVENTIONS_REVERSED["test"] + buff in pro21 and buff not in {key2[1:] for key2 in pro22}:
+                    return True
+
             if code == utilities._RHSCONVENTIONS_REVERSED["retrieveorset"]:
                 for key2 in pro22:
                     if key2[0] == utilities._RHSCONVENTIONS_REVERSED["retrieveorset"] and key2[1:] == buff and buff not in {x for x in buffers.keys() if isinstance(buffers[x], declarative.DecMemBuffer)}:
@@ -405,7 +411,7 @@ class Productions(collections.UserDict):
         """
         slotvals = slotvals.copy()
 
-        stop = self.__check_valid_compilation__(rule_name1, rule_name2, buffers)
+        stop = self.__check_valid_compilation__(rule_name1, rule_name2, buffers, model_parameters)
         if stop:
             return False, False
 
-- 
2.43.0


From 0719d20349d80bc27cdfc6b0603ce974617e30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 36/66] fix: rules are not compiled if the second one was
 selected before the retrieval it uses was over

---
 pyactr/productions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 946d8b7..0e8268f 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -330,7 +330,7 @@ class Productions(collections.UserDict):
 
         return Production(rule=func, utility=rule['utility'], reward=rule['reward'])
 
-    def __check_valid_compilation__(self, rule_name1, rule_name2, buffers, model_parameters):
+    def __check_valid_compilation__(self, rule_name1, rule_name2, slotvals, buffers, model_parameters):
         """
         Check that production compilation is valid. There are several cases in which compilation is blocked because it would result in an unsafe rule (a rule that might differ in its output compared to the original rule1 and rule2 firing one after the other). The function returns True if the production compilation is unsafe and should be stopped.
         """
@@ -380,6 +380,9 @@ class Productions(collections.UserDict):
                     for key2 in pro21:
                         if key2[0] == utilities._LHSCONVENTIONS_REVERSED["query"] and key2[1:] == buff and pro21[key2] == {"state": "error"}:
                             return True
+                        #If the second production was selected before the retrieval was over, what was retrieved is not known and cannot be compiled away
+                        elif key2[0] == utilities._LHSCONVENTIONS_REVERSED["test"] and key2[1:] == buff and not isinstance(slotvals[buff], collections.abc.MutableSequence):
+                            return True
 
         return False
 
@@ -411,7 +414,7 @@ class Productions(collections.UserDict):
         """
         slotvals = slotvals.copy()
 
-        stop = self.__check_valid_compilation__(rule_name1, rule_name2, buffers, model_parameters)
+        stop = self.__check_valid_compilation__(rule_name1, rule_name2, slotvals, buffers, model_parameters)
         if stop:
             return False, False
 
-- 
2.43.0


From 3b1e54ebfe648c102b2e26a6a2980f597e001e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 37/66] fix: rules are not compiled if the second one binds a
 variable to a slot emptied by the first one

---
 pyactr/productions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 0e8268f..47b12cd 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -353,6 +353,13 @@ class Productions(collections.UserDict):
                 if not isinstance(buffers[buff], declarative.DecMemBuffer) and utilities._LHSCONVENTIONS_REVERSED["test"] + buff in pro21 and buff not in {key2[1:] for key2 in pro22}:
                     return True
 
+            #Checking chunks that are replaced: If the second production binds a variable to a slot that the first production left empty, the compiled rule would bind it to what is in the slot before the chunk is replaced.
+            if code in {utilities._RHSCONVENTIONS_REVERSED["retrieveorset"], utilities._RHSCONVENTIONS_REVERSED["overwrite"]} and isinstance(buffers[buff], goals.Goal):
+                empty = {elem[0] for elem in pro12[key]}.difference({elem[0] for elem in pro12[key].removeempty()})
+                for elem in pro21.get(utilities._LHSCONVENTIONS_REVERSED["test"] + buff, []):
+                    if elem[0] in empty and utilities.splitting(elem[1]).variables:
+                        return True
+
             if code == utilities._RHSCONVENTIONS_REVERSED["retrieveorset"]:
                 for key2 in pro22:
                     if key2[0] == utilities._RHSCONVENTIONS_REVERSED["retrieveorset"] and key2[1:] == buff and buff not in {x for x in buffers.keys() if isinstance(buffers[x], declarative.DecMemBuffer)}:
-- 
2.43.0


From 5e7df6d5d19be8514b39782c0a1ecfdcd0810d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 38/66] fix: a variable compiled into a variable with a value
 has that value

---
 pyactr/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 2dd850a..6b2e326 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -390,6 +390,10 @@ def match(dict2, slotvals, name1, name2):
 
                     matched, valued = temp_func(temp_set, temp_val)
 
+    for x in matched:
+        if matched[x] in valued:
+            valued.setdefault(x, valued[matched[x]]) #a variable that stands for a variable with a value has that value
+
     return matched, valued
             
 
-- 
2.43.0


From 703f8997a70d9f1999348c9258bd39b1e89c3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 39/66] fix: compilation does not lose an action because of an
 unrelated command to the same buffer

---
 pyactr/productions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 47b12cd..e852d39 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -248,8 +248,9 @@ class Productions(collections.UserDict):
                 code = key[0]
                 buff = key[1:]
                 
+                unrelated = {"execute", "extra_test"} #these do not affect what is in the buffer
                 for temp_key in pro2:
-                    if temp_key[1:] == buff:
+                    if temp_key == key or (temp_key[1:] == buff and utilities._RHSCONVENTIONS[code] not in unrelated and utilities._RHSCONVENTIONS[temp_key[0]] not in unrelated):
                         key = None
                         break
 
-- 
2.43.0


From 3cfe8ed9989bea85226153827816798d156a7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 40/66] fix: two replacements of a module's process at the same
 time do not crash the simulation

---
 pyactr/simulation.py | 45 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 336df21..ab151a5 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -159,31 +159,40 @@ class Simulation:
             except StopIteration:
                 if name in self.__interruptibles:
                     self.__interruptibles.pop(name) #remove this process from interruptibles since it's finished
-                yield self.__dict_extra_proc_activate[name]
+                try:
+                    yield self.__dict_extra_proc_activate[name]
+                except simpy.Interrupt:
+                    pass #the process that activated the module was replaced before it could start
                 self.__dict_extra_proc_activate[name] = self.__simulation.event()
             else:
                 self.__procs_started.remove((name, proc))
+                if name in self.__interruptibles and (name, self.__interruptibles[name]) in self.__procs_started:
+                    continue #replaced before it could start
                 if not self.__dict_extra_proc_activate[name].triggered:
                     self.__dict_extra_proc_activate[name].succeed() #activate modules that were used
                 pro = self.__simulation.process(self.__localprocess__(name, proc))
 
-                try:
-                    cont = yield pro
-                except simpy.Interrupt:
-                    if not pro.triggered:
-                        warnings.warn(f"Process in {name} interrupted")
-                        pro.interrupt() #interrupt process
-                    elif pro.value:
-                        self.__simulation.process(self.__localprocess__(name, pro.value)) #the first part was already over, so what follows it is carried out
-
-                #if first extra process is followed by another process (returned as cont), do what follows; used only for motor and visual
-                else:
-                    if cont:
-                        pro = self.__simulation.process(self.__localprocess__(name, cont))
-                        try:
-                            yield pro
-                        except simpy.Interrupt:
-                            pass
+                while True:
+                    try:
+                        cont = yield pro
+                    except simpy.Interrupt:
+                        if self.__interruptibles.get(name) == proc:
+                            continue #it was another process that was replaced
+                        if not pro.triggered:
+                            warnings.warn(f"Process in {name} interrupted")
+                            pro.interrupt() #interrupt process
+                        elif pro.value:
+                            self.__simulation.process(self.__localprocess__(name, pro.value)) #the first part was already over, so what follows it is carried out
+
+                    #if first extra process is followed by another process (returned as cont), do what follows; used only for motor and visual
+                    else:
+                        if cont:
+                            pro = self.__simulation.process(self.__localprocess__(name, cont))
+                            try:
+                                yield pro
+                            except simpy.Interrupt:
+                                pass
+                    break
 
     def __localprocess__(self, name, generator):
         """
-- 
2.43.0


From 0eb9cf566ed913be546e87b142c401d37a94fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 41/66] fix: closest is not ignored in visual search if only
 screen_y is specified

---
 pyactr/vision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 0611a9d..3977644 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -176,7 +176,7 @@ class VisualLocation(buffers.Buffer):
 
             #check on closest
             try: 
-                if (chunk_used_for_search.screen_x.values == utilities.VISIONCLOSEST or chunk_used_for_search.screen_y.values == utilities.VISIONCLOSEST) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
+                if utilities.VISIONCLOSEST in (getattr(chunk_used_for_search.screen_x, "values", None), getattr(chunk_used_for_search.screen_y, "values", None)) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
                     continue
             except (TypeError, AttributeError):
                 pass
-- 
2.43.0


From 599e105a557ee0ca0a50ea87d4209e6d1c5aaec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 42/66] fix: telling the visual module to clear replaces a
 shift in preparation, whose preparation state must not stay busy

---
 pyactr/productions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index e852d39..488d29e 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -821,6 +821,9 @@ class ProductionRules:
                 yield ret #visual action returns value, namely, its continuation method
             elif mod_attr_val['cmd'].values == utilities.CMDCLEAR:
                 updated.stop_automatic_buffering()
+                updated.preparation = updated._FREE #this replaces a shift of attention that was still prepared
+                if updated.execution == updated._FREE:
+                    updated.processor = updated._FREE
                 updated.state = updated._FREE
                 yield Event(roundtime(time), name, "VISUAL STOPPED FROM AUTOMATIC BUFFERING AT ITS CURRENT FOCUS")
         elif isinstance(updated, motor.Motor):
-- 
2.43.0


From 5c95d8480b633ea067aa31e93915191b4eb76cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 43/66] fix: the end of an earlier shift of attention must not
 tell that the visual module is free while a later shift is pending

---
 pyactr/productions.py | 10 +++++++---
 pyactr/vision.py      |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 488d29e..689ccd9 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -772,13 +772,15 @@ class ProductionRules:
         """
         Encode a visual object.
         """
-        visualbuffer.state = visualbuffer._BUSY
+        if visualbuffer.attended is chunk: #otherwise, the state is that of a shift that started later
+            visualbuffer.state = visualbuffer._BUSY
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN) #the object is encoded (and the previous one is cleared) when encoding is over
         visualbuffer.current_focus = site #use it if visual focus is fully attention-based (internal) and not based on eye position; site is the position of attention
         yield from self.clear(name, visualbuffer, None, temp_actrvariables, time, freeing=False)
         visualbuffer.add(chunk, time)
-        visualbuffer.state = visualbuffer._FREE
+        if visualbuffer.attended is chunk:
+            visualbuffer.state = visualbuffer._FREE
         yield Event(roundtime(time), name, f"ENCODED VIS OBJECT:'{str(chunk)}'")
 
     def retrieveorset(self, name, updated, otherchunk, temp_actrvariables, time):
@@ -907,6 +909,7 @@ class ProductionRules:
         Carry out preparation of visual shift.
         """
         newchunk, extra_time, site = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
+        visualbuffer.attended = newchunk
 
         if not newchunk:
             visualbuffer.preparation = visualbuffer._FREE
@@ -963,7 +966,8 @@ class ProductionRules:
         if encoding > preparation+execution:
             newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
             if not newchunk:
-                visualbuffer.state = visualbuffer._ERROR
+                if visualbuffer.attended is otherchunk:
+                    visualbuffer.state = visualbuffer._ERROR
                 yield Event(roundtime(time), name, 'NO VISUAL OBJECT TO ENCODE')
             else:
                 yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 3977644..25910f6 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -253,6 +253,7 @@ class Visual(buffers.Buffer):
         self.autoattending = self._FREE
         self.attend_automatic = True #the current focus automatically attends
         self.last_mvt = 0
+        self.attended = None #object of the last shift of attention
 
         #parameters
         self.model_parameters = {}
-- 
2.43.0


From 98d1cb7c7a895205c194982e4fa2450246ee08d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 44/66] fix: encoding an object of an earlier shift of
 attention does not leave the visual module busy

---
 pyactr/productions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 689ccd9..08a29d0 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -777,7 +777,11 @@ class ProductionRules:
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN) #the object is encoded (and the previous one is cleared) when encoding is over
         visualbuffer.current_focus = site #use it if visual focus is fully attention-based (internal) and not based on eye position; site is the position of attention
-        yield from self.clear(name, visualbuffer, None, temp_actrvariables, time, freeing=False)
+        state = visualbuffer.state
+        for event in self.clear(name, visualbuffer, None, temp_actrvariables, time, freeing=False):
+            if visualbuffer.attended is not chunk:
+                visualbuffer.state = state #clearing is a part of this encoding, so it does not change the state, either
+            yield event
         visualbuffer.add(chunk, time)
         if visualbuffer.attended is chunk:
             visualbuffer.state = visualbuffer._FREE
-- 
2.43.0


From 9f077e2e8e5f2e9aeefc2dfbea7e9784178d7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 45/66] fix: rules are not compiled if the second one was
 selected before a delayed action of the first one took place

---
 pyactr/productions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 08a29d0..ca96b7e 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -354,6 +354,11 @@ class Productions(collections.UserDict):
                 if not isinstance(buffers[buff], declarative.DecMemBuffer) and utilities._LHSCONVENTIONS_REVERSED["test"] + buff in pro21 and buff not in {key2[1:] for key2 in pro22}:
                     return True
 
+            #Checking delayed actions: If the second production was selected before a delayed action of the first production took place, what that action does to the buffer is not known.
+            if code in {utilities._RHSCONVENTIONS_REVERSED["retrieveorset"], utilities._RHSCONVENTIONS_REVERSED["modify_request"]} and isinstance(buffers[buff], goals.Goal) and slotvals[buff] is None:
+                if buff in {key2[1:] for key2 in pro21}.union({key2[1:] for key2 in pro22}):
+                    return True
+
             #Checking chunks that are replaced: If the second production binds a variable to a slot that the first production left empty, the compiled rule would bind it to what is in the slot before the chunk is replaced.
             if code in {utilities._RHSCONVENTIONS_REVERSED["retrieveorset"], utilities._RHSCONVENTIONS_REVERSED["overwrite"]} and isinstance(buffers[buff], goals.Goal):
                 empty = {elem[0] for elem in pro12[key]}.difference({elem[0] for elem in pro12[key].removeempty()})
-- 
2.43.0


From 258165a88e3416b5f81d9a6bf1e5feb06470290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 46/66] fix: a retrieval is compiled away only if the first
 rule requested it

---
 pyactr/productions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index ca96b7e..59aa768 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -345,6 +345,11 @@ class Productions(collections.UserDict):
         pro21 = next(production2)
         pro22 = next(production2)
 
+        #Checking retrievals: What was retrieved can be compiled away only if the first production requested it.
+        for buff in slotvals:
+            if isinstance(slotvals[buff], collections.abc.MutableSequence) and utilities._RHSCONVENTIONS_REVERSED["retrieveorset"] + buff not in pro12:
+                return True
+
         for key in pro12:
             code = key[0]
             buff = key[1:]
-- 
2.43.0


From b8ae8f50106a5c5de997f4d268ea93043c391706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 47/66] fix: rules that ask for different states of a module
 are not compiled

---
 pyactr/productions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 59aa768..86edab6 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -350,6 +350,12 @@ class Productions(collections.UserDict):
             if isinstance(slotvals[buff], collections.abc.MutableSequence) and utilities._RHSCONVENTIONS_REVERSED["retrieveorset"] + buff not in pro12:
                 return True
 
+        #Checking queries: If the two productions ask for different states, no rule can ask for both. (Queries of modules which the first production uses are checked below.)
+        for key in pro11:
+            if key[0] == utilities._LHSCONVENTIONS_REVERSED["query"] and any(pro21.get(key, {}).get(each, pro11[key][each]) != pro11[key][each] for each in pro11[key]):
+                if not any(key2[1:] == key[1:] and utilities._RHSCONVENTIONS[key2[0]] not in {"modify", "extra_test"} for key2 in pro12):
+                    return True
+
         for key in pro12:
             code = key[0]
             buff = key[1:]
-- 
2.43.0


From ba69a7089b0205ab717469c238079e82efdf08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 48/66] fix: GUI draws stimuli with attributes that are not
 options of a text item

---
 pyactr/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index ab151a5..5412670 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -390,6 +390,9 @@ class GuiPart:
     GUI part is used to run GUI on top of ACT-R model. It is used for environment simulations.
     """
 
+    #attributes of stimuli that say how the text is drawn; other attributes (e.g., color, vis_delay, externally_visible) are only for the model
+    TEXT_OPTIONS = {"activefill", "activestipple", "anchor", "angle", "disabledfill", "disabledstipple", "fill", "font", "justify", "offset", "state", "stipple", "text", "underline", "width"}
+
     def __init__(self, env, master, queue, endCommand):
         self.queue = queue
 
@@ -419,7 +422,7 @@ class GuiPart:
                             position = stimulus[each]['position']
                         except KeyError:
                             raise utilities.ACTRError("One of your stimuli for environment does not have a defined position; the element cannot be printed in environment; stimuli should look like this: [{'stimulus1-0time': {'text': 'hi', 'position': (0, 0)}, 'stimulus2-0time': {'text': 'you', 'position': (10, 10)}}, {'stimulus3-latertime': {'text': 'new', 'position': (0, 0)}}]")
-                        canvas_id = self.canvas.create_text(position, **{key: stimulus[each][key] for key in stimulus[each] if key != 'position' and key != 'vis_delay'})
+                        canvas_id = self.canvas.create_text(position, **{key: stimulus[each][key] for key in stimulus[each] if key in self.TEXT_OPTIONS})
                         try:
                             self.canvas.itemconfig(canvas_id, text=stimulus[each]['text'], tags="t")
                         except KeyError:
-- 
2.43.0


From 1b699d1b2a10217408193140603619b85fb77b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 49/66] fix: GUI shows blank screens

---
 pyactr/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 5412670..fac8a87 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -373,7 +373,7 @@ class Simulation:
                 if self.__trace:
                     if self.current_event.proc != utilities._ENV:
                         print(self.current_event[0:3])
-            if self.__env.stimulus and old_stimulus != self.__env.stimulus:
+            if self.__env.stimulus is not None and old_stimulus != self.__env.stimulus:
                 old_stimulus = self.__env.stimulus
                 self.__queue.put({"stim": self.__env.stimulus})
             if self.__env.current_focus and old_focus != tuple(self.__env.current_focus):
@@ -414,7 +414,7 @@ class GuiPart:
                     stimulus = element["stim"]
                 except KeyError:
                     focus = element["focus"]
-                if stimulus:
+                if stimulus is not None: #the screen might be blank
                     for elem in self.canvas.find_withtag("t"):
                         self.canvas.delete(elem)
                     for each in stimulus:
-- 
2.43.0


From 1fd3c09d7e49ffbcf790b61e15324babf6b40004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 50/66] fix: GUI running in real time does not wait for
 initial_time

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index fac8a87..aadb289 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -354,7 +354,7 @@ class Simulation:
         Function handling the asynchronous trace output.
         """
         self.__last_event = None
-        old_time = 0
+        old_time = self.__simulation.now
         old_stimulus = None
         old_focus = None
         while self.__running:
-- 
2.43.0


From 2d2511c684a1eabd011b5f6b1dcd0d9e71ea082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 51/66] fix: modifying a chunk after a delay takes the rule
 that asked for it, not the one considered last

---
 pyactr/productions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 86edab6..f83ad1b 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -743,13 +743,14 @@ class ProductionRules:
         Modify a buffer chunk. Unlike plain modify, this might add extra time to changing the chunk in the buffer.
         """
         modified.state = modified._BUSY
+        rulename = self.used_rulename #other rules might be considered before the chunk is modified
         extra_time = utilities.calculate_setting_time(modified)
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN)
         if self.model_parameters['production_compilation']:
             RHSdict = otherchunk._asdict()
             RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values, they will be copied from LHSdict
-            production = self.rules[self.used_rulename]["rule"]()
+            production = self.rules[rulename]["rule"]()
             code = utilities._LHSCONVENTIONS_REVERSED["test"]
             try:
                 slotvaldict = next(production)[code+name]._asdict()
-- 
2.43.0


From 1c43d8650b5e5a6156bcd884e0f7e434429caf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 52/66] fix: visual search returns the stimulus that it found,
 not a later one that does not match

---
 pyactr/vision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 25910f6..1c94cf3 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -194,10 +194,10 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, AttributeError):
                 pass
 
-            found_stim = self.environment.stimulus[each]
-            visible_chunk = chunk_from_stimulus(found_stim, "visual_location", position=False)
+            visible_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location", position=False)
 
             if visible_chunk <= chunk_used_for_search:
+                found_stim = self.environment.stimulus[each]
                 found = chunk_from_stimulus(found_stim, "visual_location", position=True)
                 current_x = position[0]
                 current_y = position[1]
-- 
2.43.0


From ab63cb0a0e52d8f7ac7f745a144acdd43eb828ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 53/66] fix: a visual request without a command is reported as
 an ACT-R error, not a KeyError

---
 pyactr/productions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index f83ad1b..23c437b 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -837,12 +837,13 @@ class ProductionRules:
             yield Event(roundtime(time), name, f"ENCODED LOCATION:'{str(chunk)}'")
         elif isinstance(updated, vision.Visual):
             mod_attr_val = {x[0]: utilities.check_bound_vars(temp_actrvariables, x[1]) for x in otherchunk.removeunused()}
-            if (not mod_attr_val['cmd'].values) or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
-                raise ACTRError(f"Visual module received no command or an invalid command: '{mod_attr_val['cmd'].values}'. The valid commands are: '{utilities.CMDVISUAL}'")
-            if mod_attr_val['cmd'].values == utilities.CMDMOVEATTENTION:
+            command = getattr(mod_attr_val.get('cmd'), 'values', None)
+            if (not command) or command not in utilities.CMDVISUAL:
+                raise ACTRError(f"Visual module received no command or an invalid command: '{command}'. The valid commands are: '{utilities.CMDVISUAL}'")
+            if command == utilities.CMDMOVEATTENTION:
                 ret = yield from self.visualshift(name, updated, otherchunk, temp_actrvariables, time)
                 yield ret #visual action returns value, namely, its continuation method
-            elif mod_attr_val['cmd'].values == utilities.CMDCLEAR:
+            elif command == utilities.CMDCLEAR:
                 updated.stop_automatic_buffering()
                 updated.preparation = updated._FREE #this replaces a shift of attention that was still prepared
                 if updated.execution == updated._FREE:
-- 
2.43.0


From 68cddf05bd1d419ad295eefcaca1c21550b4412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 54/66] fix: automatic search and buffering do not mix features
 of the new stimulus with features of the old one

---
 pyactr/productions.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 23c437b..77cc69e 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -889,9 +889,8 @@ class ProductionRules:
             newchunk, stim = visualbuffer.automatic_search(stim)
         if newchunk:
             if visualbuffer:
-                visualbuffer.modify(newchunk, stim)
-            else:
-                visualbuffer.add(newchunk, stim, time)
+                visualbuffer.pop() #the new location takes the place of the old one
+            visualbuffer.add(newchunk, stim, time)
             visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
         else:
@@ -921,9 +920,8 @@ class ProductionRules:
         visualbuffer.autoattending = visualbuffer._FREE
         if newchunk:
             if visualbuffer:
-                visualbuffer.modify(newchunk)
-            else:
-                visualbuffer.add(newchunk, time)
+                visualbuffer.pop() #the new object takes the place of the old one
+            visualbuffer.add(newchunk, time)
             yield Event(roundtime(time), name, f"AUTOMATIC BUFFERING: {str(newchunk)}")
 
     def visualshift(self, name, visualbuffer, otherchunk, temp_actrvariables, time):
-- 
2.43.0


From 4b774593b4c9b041e5416a92dd7a54f196b6c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 55/66] fix: rules can modify the visual location buffer

---
 pyactr/vision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 1c94cf3..bef2da5 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -63,7 +63,7 @@ class VisualLocation(buffers.Buffer):
             if self.finst < len(self.recent):
                 self.recent.popleft()
 
-    def modify(self, otherchunk, found_stim, actrvariables=None):
+    def modify(self, otherchunk, actrvariables=None, found_stim=None):
         """
         Modify the chunk in VisualLocation buffer according to otherchunk. found_stim keeps information about the actual stimulus and it is used to update the queue of the recently visited chunks.
         """
-- 
2.43.0


From 7ef7511812fba71792ada810d217f29a56c592c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 56/66] fix: a stimulus without text is searched and buffered
 like one with an empty text

---
 pyactr/productions.py | 2 +-
 pyactr/vision.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 77cc69e..16cb2fa 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -912,7 +912,7 @@ class ProductionRules:
         encoding = 0
         for st in stim:
             if st['position'][0] > cf[0]-foveal_distance and st['position'][0] < cf[0]+foveal_distance and st['position'][1] > cf[1]-foveal_distance and st['position'][1] < cf[1]+foveal_distance:
-                if (not visualbuffer) or list(visualbuffer)[0].value.values != st['text']: #automatic buffer only of there is sth to buffer
+                if (not visualbuffer) or list(visualbuffer)[0].value.values != st.get('text', ''): #automatic buffer only of there is sth to buffer
                     newchunk, encoding = visualbuffer.automatic_buffering(st, self.model_parameters)
         time += encoding
         yield Event(roundtime(time), name, self._UNKNOWN)
diff --git a/pyactr/vision.py b/pyactr/vision.py
index bef2da5..51267d8 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -123,7 +123,7 @@ class VisualLocation(buffers.Buffer):
                 pass
 
             #check value in text; in principle, you can search based on any value, so this is more powerful than actual visual search
-            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each]["text"]:
+            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each].get("text", ''):
                 continue
 
             position = (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1]))
-- 
2.43.0


From 028ae6bca2af87f064137dc1cd229609a5311a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:02 +0000
Subject: [PATCH 57/66] fix: production compilation ties all the variables that
 must have the same value, also those of buffers that the first rule only
 tests

---
 pyactr/productions.py |  6 +++++-
 pyactr/utilities.py   | 19 ++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 16cb2fa..1500e71 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -463,11 +463,15 @@ class Productions(collections.UserDict):
 
         new_2rule = self.__rename__(rule_name2, modified_actrvariables) #rename all variables in rule_name2 to avoid var clashes
 
+        production1 = self[rule_name1]['rule']()
+
+        pro1 = next(production1).copy()
+
         production2 = new_2rule['rule']()
         
         pro2 = next(production2)
 
-        matched, valued = utilities.match(pro2, slotvals, rule_name1, rule_name2)
+        matched, valued = utilities.match(pro1, pro2, slotvals, rule_name1, rule_name2)
 
         if any(isinstance(slotvals[buff], collections.abc.MutableSequence) for buff in slotvals):
             return False, False #the second rule does not use what was retrieved, the retrieval cannot be compiled away
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 6b2e326..be7db1f 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -305,20 +305,25 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                 pass
     return VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result)) #result is None if no values were defined
 
-def match(dict2, slotvals, name1, name2):
+def match(dict1, dict2, slotvals, name1, name2):
     """
-    Match variables that happen to be tied to the same slots. This function is used in production compilation. dict2 is the LHS of the second rule, slotvals is the dictionary based on the output of the first rule.
+    Match variables that happen to be tied to the same slots. This function is used in production compilation. dict1 is the LHS of the first rule, dict2 is the LHS of the second rule, slotvals is the dictionary based on the output of the first rule.
     """
     def temp_func(temp_set, temp_val):
         """
         temp_func gets a set of variables and a value (possibly, None), and it returns two dicts.
         matched stores which variables will be substituted by which variable, valued stores which variables will be substituted by a value (if temp_val not empty).
         """
+        for tied in [x for x in groups if not x.isdisjoint(temp_set)]: #variables that other slots tie to the variables in temp_set
+            groups.remove(tied)
+            temp_set = temp_set.union(tied)
+        groups.append(temp_set)
+        temp_val = temp_val or next((valued[x] for x in sorted(temp_set) if x in valued), None)
         if temp_val:
             valued.update({x: temp_val for x in temp_set})
         else:
             try:
-                temp_var = sorted(temp_set, key=lambda x:len(x))[0]
+                temp_var = sorted(temp_set, key=lambda x:(len(x), x))[0]
             except IndexError:
                 pass
             else:
@@ -327,6 +332,7 @@ def match(dict2, slotvals, name1, name2):
 
     matched = {}
     valued = {}
+    groups = [] #sets of variables that must have the same value
     temp_slotvals = slotvals.copy()
     for key in dict2:
 
@@ -346,6 +352,9 @@ def match(dict2, slotvals, name1, name2):
             except KeyError:
                 chunkdict3 = chunkdict2
 
+            if chunkdict3 is None and key in dict1:
+                chunkdict3 = dict1[key]._asdict() #the first rule tests the buffer and leaves it as it is
+
             if isinstance(chunkdict3, collections.abc.MutableSequence): #this is retrieval, it consists of mutable sequence -- 0=chunk description in the 1st rule; 1=retrieved chunk
                 for elem in chunkdict2:
                     chunkpart2 = splitting(chunkdict2[elem])
@@ -390,10 +399,6 @@ def match(dict2, slotvals, name1, name2):
 
                     matched, valued = temp_func(temp_set, temp_val)
 
-    for x in matched:
-        if matched[x] in valued:
-            valued.setdefault(x, valued[matched[x]]) #a variable that stands for a variable with a value has that value
-
     return matched, valued
             
 
-- 
2.43.0


From e0f9b9c678d85bccbe130b54937533510db51a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:02 +0000
Subject: [PATCH 58/66] fix: a compiled rule has the conditions of the second
 rule on what the first one leaves as it is, not on what the first one sets

---
 pyactr/productions.py | 67 ++++++++++++++++++++++++++++++-------------
 pyactr/utilities.py   | 11 +++++++
 2 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 1500e71..488c024 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -123,11 +123,23 @@ class Productions(collections.UserDict):
         Collapses 2 rules into 1.
         """
         def func():
+            exclusions = [] #variables, with values and variables that they cannot have
+
+            def exclude(value, condition):
+                """
+                Collect what follows from a (negative) condition on a slot that has a value.
+                """
+                varval = utilities.splitting(condition)
+                if value.variables:
+                    exclusions.append((value.variables, varval._replace(values=None, variables=None)))
+                else:
+                    exclusions.extend((x, varval._replace(values=None, variables=None, negvalues=(value.values or str(utilities.EMPTYVALUE),), negvariables=())) for x in varval.negvariables)
+
             production1 = rule1['rule']()
+            pro1, actions1 = next(production1).copy(), next(production1).copy()
             production2 = rule2['rule']()
-
-            pro1 = next(production1).copy()
-            pro2 = next(production2).copy()
+            pro2, actions2 = next(production2).copy(), next(production2).copy()
+            replaced = {key[1:] for key in actions1 if utilities._RHSCONVENTIONS[key[0]] in {"retrieveorset", "overwrite"}} #nothing is left of the chunks that rule1 replaces
 
             for key in pro1:
 
@@ -150,20 +162,18 @@ class Productions(collections.UserDict):
 
                 if buff in slotvals:
                     for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
-                            varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
+                        slotvals_slot = utilities.splitting((slotvals[buff] or {}).get(slot, utilities.EMPTYVALUE))
+                        if buff not in replaced and (not any(slotvals_slot) or slotvals_slot == utilities.splitting(pro1buff[slot])):
+                            varval = utilities.merge_conditions(pro1buff[slot], pro2buff[slot])
                             mod_attr_val[slot] = varval
                         else:
                             mod_attr_val[slot] = pro1buff[slot]
+                            exclude(slotvals_slot, pro2buff[slot])
                 elif buff == retrieval:
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
                 else:
                     for slot in pro2buff:
-                        varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
+                        varval = utilities.merge_conditions(pro1buff[slot], pro2buff[slot])
                         mod_attr_val[slot] = varval
 
                 new_chunk = chunks.Chunk(pro1[key].typename, **mod_attr_val)
@@ -176,9 +186,7 @@ class Productions(collections.UserDict):
                 buff = key[1:]
 
                 if utilities._LHSCONVENTIONS[code] == "query":
-                    temp_production1 = rule1['rule']()
-                    _, temp_testing = next(temp_production1), next(temp_production1)
-                    for temp_key in temp_testing:
+                    for temp_key in actions1:
                         if utilities._RHSCONVENTIONS[temp_key[0]] != "modify" and utilities._RHSCONVENTIONS[temp_key[0]] != "extra_test" and temp_key[1:] == buff:
                             break
                     else:
@@ -191,24 +199,43 @@ class Productions(collections.UserDict):
                 
                 if buff in slotvals:
                     for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
+                        slotvals_slot = utilities.splitting((slotvals[buff] or {}).get(slot, utilities.EMPTYVALUE))
+                        if buff not in replaced and not any(slotvals_slot):
                             mod_attr_val[slot] = pro2buff[slot]
+                        else:
+                            exclude(slotvals_slot, pro2buff[slot])
                 elif buff == retrieval:
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
                 else:
                     mod_attr_val = pro2buff.copy()
 
+                if buff in replaced and buff not in {temp_key[1:] for temp_key in actions2}:
+                    continue #rule2 only tests the chunk that rule1 sets
+
                 new_chunk = chunks.Chunk(pro2[key].typename, **mod_attr_val)
                 pro1[key] = new_chunk
 
+            #here below -- the values that the slots set by rule1 cannot have in rule2 are excluded from the slots which they come from
+            for key in pro1:
+
+                if utilities._LHSCONVENTIONS[key[0]] == "query":
+                    continue
+
+                mod_attr_val = {}
+
+                for slot, value in pro1[key]:
+                    varval = utilities.splitting(value)
+                    mod_attr_val[slot] = varval
+                    for variable, excluded in exclusions:
+                        if variable == varval.variables:
+                            mod_attr_val[slot] = utilities.merge_conditions(mod_attr_val[slot], excluded)
+
+                pro1[key] = chunks.Chunk(pro1[key].typename, **mod_attr_val)
+
             yield pro1
 
-            pro1 = next(production1).copy()
-            pro2 = next(production2).copy()
+            pro1 = actions1
+            pro2 = actions2
             
             #anything in pro2 should go into action
             for key in pro2:
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index be7db1f..fff9818 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -244,6 +244,17 @@ def merge_chunkparts(chunkpart1, chunkpart2):
 
     return new_varval
 
+def merge_conditions(chunkpart1, chunkpart2):
+    """
+    Merge two chunk parts that are both conditions, i.e., what is left in chunkpart1 unspecified is specified by chunkpart2, and the negative conditions of both hold.
+    """
+    varval1 = splitting(chunkpart1)
+    varval2 = splitting(chunkpart2)
+    negvariables = varval1.negvariables + tuple(x for x in varval2.negvariables if x not in varval1.negvariables)
+    negvalues = varval1.negvalues + tuple(x for x in varval2.negvalues if x not in varval1.negvalues)
+
+    return VarvalClass(variables=varval1.variables or varval2.variables, values=varval1.values or varval2.values, negvariables=negvariables, negvalues=negvalues)
+
 #############utilities for rules######################################
 
 def getrule():
-- 
2.43.0


From 23c26f913fa138dac3808ba597ff6b089b091880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 59/66] fix: compiled rules are put together once, not
 (exponentially often) whenever they are considered

---
 pyactr/productions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 488c024..5b19132 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -302,7 +302,13 @@ class Productions(collections.UserDict):
 
             yield pro2
 
-        return Production(rule=func, utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
+        collapsed = list(func()) #the rule is put together only once, not whenever it is considered (putting it together takes putting its two rules together, and so on)
+
+        def rule():
+            for pro in collapsed:
+                yield {key: chunks.Chunk(value.typename, **value._asdict()) if isinstance(value, chunks.Chunk) else dict(value) if isinstance(value, dict) else value for key, value in pro.items()}
+
+        return Production(rule=rule, utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
 
     def __rename__(self, name, variables):
         """
-- 
2.43.0


From 1b490f6bdc726885ac737a2b6ede0cd9a3ce870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 60/66] fix: rules are not compiled if the second one depends
 on what a delayed action of an earlier rule did

---
 pyactr/productions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 5b19132..964115a 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -383,6 +383,11 @@ class Productions(collections.UserDict):
             if isinstance(slotvals[buff], collections.abc.MutableSequence) and utilities._RHSCONVENTIONS_REVERSED["retrieveorset"] + buff not in pro12:
                 return True
 
+        #Checking delayed actions: If an earlier rule changed a buffer after the first production, what the second production found there is not due to the first one.
+        for buff in slotvals:
+            if slotvals[buff] == {} and buff in {key[1:] for key in pro21}.union({key[1:] for key in pro22}):
+                return True
+
         #Checking queries: If the two productions ask for different states, no rule can ask for both. (Queries of modules which the first production uses are checked below.)
         for key in pro11:
             if key[0] == utilities._LHSCONVENTIONS_REVERSED["query"] and any(pro21.get(key, {}).get(each, pro11[key][each]) != pro11[key][each] for each in pro11[key]):
@@ -795,7 +800,7 @@ class ProductionRules:
                 slotvaldict = {}
             finally:
                 slotvaldict.update(RHSdict)
-            self.current_slotvals[name] = slotvaldict
+            self.current_slotvals[name] = slotvaldict if rulename == self.last_rule else {} #another rule was fired in the meantime, it is not the one that changes the buffer
 
         modified.modify(otherchunk, temp_actrvariables)
         modified.state = modified._FREE
@@ -847,6 +852,7 @@ class ProductionRules:
         """
         updated.state = updated._BUSY
         if isinstance(updated, goals.Goal):
+            rulename = self.used_rulename #other rules might be considered before the chunk is created
             yield from self.clear(name, updated, otherchunk, temp_actrvariables, time, freeing=False)
             extra_time = utilities.calculate_setting_time(updated)
             time += extra_time
@@ -854,7 +860,7 @@ class ProductionRules:
             if self.model_parameters['production_compilation']:
                 RHSdict = otherchunk._asdict()
                 RHSdict = {item[0]: item[1] for item in RHSdict.items()}
-                self.current_slotvals[name] = RHSdict
+                self.current_slotvals[name] = RHSdict if rulename == self.last_rule else {} #another rule was fired in the meantime, it is not the one that sets the buffer
 
             updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
             created_elem = list(updated)[0]
-- 
2.43.0


From 1f3f0b1e99f8cd020e53e5d1382922e84fd9318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:00 +0000
Subject: [PATCH 61/66] fix: a slot that must differ from the chunk in a buffer
 is checked also if that buffer is tested later in the rule

---
 pyactr/productions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 964115a..da78016 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -1153,6 +1153,9 @@ class ProductionRules:
         if submodule_var in temp_actrvariables and list(self.buffers[submodule_name])[0] != temp_actrvariables[submodule_var]:
             return False, None
 
+        if any(list(self.buffers[submodule_name])[0] == each for each in temp_actrvariables.get("~" + submodule_var, set())):
+            return False, None
+
         for chunk in tested:
             testchunk.boundvars = dict(temp_actrvariables)
 
-- 
2.43.0


From 22776cdd76fcb9eaf57b11a7a2ff472e30536ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:54 +0000
Subject: [PATCH 62/66] fix: a variable in a chunk stands for its own value,
 not for the values of the variables named by its letters

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index a522189..345496f 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -186,7 +186,7 @@ class Chunk(Sequence):
                 temp_varval = {"values": set(), "negvalues": set()}
                 for key in ["variables", "negvariables"]:
                     if getattr(varval, key):
-                        for value in getattr(varval, key):
+                        for value in [varval.variables] if key == "variables" else varval.negvariables:
                             try:
                                 temp_varval[re.sub("variables", "values", key)].add(self.boundvars[utilities.ACTRVARIABLE + value]) #add (neg)value based on the (neg)variable
                             except KeyError:
-- 
2.43.0


From 8938cb28597f83e134c47e1a2529abb6e1884a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:54 +0000
Subject: [PATCH 63/66] fix: attention is shifted to objects whose position is
 a list or is not a whole number

---
 pyactr/vision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 51267d8..51e5f31 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -338,7 +338,7 @@ class Visual(buffers.Buffer):
 
         for each in self.environment.stimulus:
             try:
-                if self.environment.stimulus[each]['position'] == (float(mod_attr_val['screen_pos'].values.screen_x.values), float(mod_attr_val['screen_pos'].values.screen_y.values)):
+                if [int(x) for x in self.environment.stimulus[each]['position']] == [int(float(mod_attr_val['screen_pos'].values.screen_x.values)), int(float(mod_attr_val['screen_pos'].values.screen_y.values))]: #locations are integers, see chunk_from_stimulus
                     vis_delay = self.environment.stimulus[each].get('vis_delay')
                     stim = self.environment.stimulus[each].copy()
                     stim.update({'cmd': mod_attr_val['cmd']})
-- 
2.43.0


From 1f58ec472048d4884b491eae3508593a7ab56115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:55 +0000
Subject: [PATCH 64/66] fix: a visual search excludes the values it negates,
 and finds what has others

---
 pyactr/vision.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 51e5f31..a88ff42 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -99,6 +99,8 @@ class VisualLocation(buffers.Buffer):
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1], negative_impossible=False) for x in otherchunk.removeunused()}
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"The chunk '{otherchunk}' is not defined correctly; {arg}")
+        negations = {slot: val._replace(values=None) for slot, val in mod_attr_val.items() if val.negvalues} #what the stimulus must not be, checked separately
+        mod_attr_val = {slot: val._replace(negvalues=()) for slot, val in mod_attr_val.items() if val.values is not None or slot not in negations}
         chunk_used_for_search = chunks.Chunk(utilities.VISUALLOCATION, **mod_attr_val)
             
         found = None
@@ -196,7 +198,16 @@ class VisualLocation(buffers.Buffer):
 
             visible_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location", position=False)
 
-            if visible_chunk <= chunk_used_for_search:
+            #check negative values
+            chunk_compared = chunk_used_for_search
+            if negations:
+                stim_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location")
+                seen = {**stim_chunk._asdict(), "value": self.environment.stimulus[each].get("text", '')}
+                if not chunks.Chunk(utilities.VISUALLOCATION, **negations) <= chunks.Chunk(stim_chunk.typename, **seen):
+                    continue
+                chunk_compared = chunks.Chunk(utilities.VISUALLOCATION, **{**{slot: seen[slot] for slot in negations if slot in seen}, **mod_attr_val}) #a slot that is not some value is as good as a slot that has the right value
+
+            if visible_chunk <= chunk_compared:
                 found_stim = self.environment.stimulus[each]
                 found = chunk_from_stimulus(found_stim, "visual_location", position=True)
                 current_x = position[0]
-- 
2.43.0


From 2ab9488681cdbca5726afa774cc1fc83aca2c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:56 +0000
Subject: [PATCH 65/66] fix: visual search of objects of extended chunk types
 does not end in an error

---
 pyactr/vision.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index a88ff42..b563aa4 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -101,7 +101,10 @@ class VisualLocation(buffers.Buffer):
             raise utilities.ACTRError(f"The chunk '{otherchunk}' is not defined correctly; {arg}")
         negations = {slot: val._replace(values=None) for slot, val in mod_attr_val.items() if val.negvalues} #what the stimulus must not be, checked separately
         mod_attr_val = {slot: val._replace(negvalues=()) for slot, val in mod_attr_val.items() if val.values is not None or slot not in negations}
-        chunk_used_for_search = chunks.Chunk(utilities.VISUALLOCATION, **mod_attr_val)
+        typename = utilities.VISUALLOCATION
+        if set(chunks.Chunk(utilities.VISUALLOCATION).actrchunk._fields) <= set(otherchunk.actrchunk._fields):
+            typename = otherchunk.typename #the request is of a type that has all slots of visual locations, and possibly others
+        chunk_used_for_search = chunks.Chunk(typename, **mod_attr_val)
             
         found = None
         found_stim = None
@@ -203,9 +206,9 @@ class VisualLocation(buffers.Buffer):
             if negations:
                 stim_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location")
                 seen = {**stim_chunk._asdict(), "value": self.environment.stimulus[each].get("text", '')}
-                if not chunks.Chunk(utilities.VISUALLOCATION, **negations) <= chunks.Chunk(stim_chunk.typename, **seen):
+                if not chunks.Chunk(typename, **negations) <= chunks.Chunk(stim_chunk.typename, **seen):
                     continue
-                chunk_compared = chunks.Chunk(utilities.VISUALLOCATION, **{**{slot: seen[slot] for slot in negations if slot in seen}, **mod_attr_val}) #a slot that is not some value is as good as a slot that has the right value
+                chunk_compared = chunks.Chunk(typename, **{**{slot: seen[slot] for slot in negations if slot in seen}, **mod_attr_val}) #a slot that is not some value is as good as a slot that has the right value
 
             if visible_chunk <= chunk_compared:
                 found_stim = self.environment.stimulus[each]
-- 
2.43.0


From 89b7eb8395bcdc9d8e3b05af49d615acd6842a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 66/66] fix: visual buffers without a default harvest use the
 only declarative memory

---
 pyactr/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/model.py b/pyactr/model.py
index 7b884ca..a482ac9 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -312,6 +312,9 @@ class ACTRModel:
         if self.__env:
             self.__env.initial_time = initial_time #set the initial time of the environment to be the same as simulation
             if self.visbuffers:
+                for key in self.visbuffers:
+                    if self.visbuffers[key].dm is None and len(self.decmems) == 1:
+                        self.visbuffers[key].dm = self.decmem #if only one dm, let all buffers use it
                 self.__buffers.update(self.visbuffers)
             else:
                 dm = list(decmem.values())[0]
-- 
2.43.0

