From 48f1bdff14cc6f9a6cce65b293223d850347844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 001/140] fix: expandCVRange started the second and later books
 of a range at the first book's verse

---
 BibleOrgSys/Reference/BibleVersificationSystems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 6a7c289..a287358 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -918,13 +918,13 @@ class BibleVersificationSystem:
                 for Cint in range( Cfirst, Clast+1 ):
                     Vlast = self.getNumVerses( BBB, str(Cint) )
                     if Cint==Cfirst: # We're on the first chapter
-                        startVint = V1int
+                        startVint = Vfirst
                         endVint = Vlast
                     else: # It's not the first chapter
                         startVint = 1
                         endVint = Vlast
                     for Vint in range( startVint, endVint+1 ):
-                        if Cint==C1int and Vint==V1int: S = S1
+                        if BBB==BBB1 and Cint==C1int and Vint==V1int: S = S1
                         else: S = ''
                         resultList.append( (BBB, str(Cint), str(Vint), S,) )
                 BBB, Cfirst, Vfirst = bookOrderSystem.getNextBookCode( BBB ), 1, 1
-- 
2.43.0


From 3b31f66ef810b87fcd8f6866d34c28729b691be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 002/140] fix: absolute verse numbers of a second Bible
 organisational system used the table of the first one

---
 .../Reference/BibleOrganisationalSystems.py       | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index bade387..6115634 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -532,20 +532,21 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
     # end of BibleOrganisationalSystem.isValidBCVRef
 
 
-    __absoluteVerseDict = {}
+    __absoluteVerseDict = None # Filled in for each system separately (because books and versifications differ)
     def __makeAbsoluteVerseList( self ):
         """
         Make up a list of four-tuples containing
             BBB, chapterNumber, firstVerseNumber, lastVerseNumber
         """
+        self.__absoluteVerseDict = {}
         accumulatedCount = 0
         for BBB in self.getBookList():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, BibleVersificationSystem.getNumVersesList( self, BBB ) )
             for j,numVerses in enumerate( BibleVersificationSystem.getNumVersesList( self, BBB ) ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, j, numVerses )
-                BibleOrganisationalSystem.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
+                self.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
                 accumulatedCount += numVerses
-        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BibleOrganisationalSystem.__absoluteVerseDict )
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__absoluteVerseDict )
     # end of BibleOrganisationalSystem.__makeAbsoluteVerseList
 
 
@@ -559,8 +560,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         C, V = int(C), int(V)
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        rangeStart, rangeEnd = BibleOrganisationalSystem.__absoluteVerseDict[ (BBB,C) ]
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
         if 1 <= V <= rangeEnd-rangeStart+1:
             return rangeStart + V - 1
     # end of BibleOrganisationalSystem.getAbsoluteVerseNumber
@@ -576,8 +577,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: assert 1 <= avNumber <= 99999
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        for (BBB,C),(rangeStart, rangeEnd) in BibleOrganisationalSystem.__absoluteVerseDict.items():
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        for (BBB,C),(rangeStart, rangeEnd) in self.__absoluteVerseDict.items():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, rangeStart, rangeEnd )
             if rangeStart <= avNumber <= rangeEnd:
                 return BBB, str(C), str(avNumber - rangeStart + 1)
-- 
2.43.0


From 2dfd04f2c321b5de57c4d1c301e60425a6316ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 003/140] fix: organisational systems without a known book
 order could not be created

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index 6115634..bd0a803 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -321,6 +321,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         if bookOrderSystemName and bookOrderSystemName!='None' and bookOrderSystemName!='Unknown':
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "Uses {!r} book order system".format( bookOrderSystemName ) )
             BibleBookOrderSystem.__init__( self, bookOrderSystemName )
+            haveBookOrder = BibleBookOrderSystem.getBookOrderList( self ) is not None # Might be an unknown system name
+        else: haveBookOrder = False
         if versificationSystemName and versificationSystemName!='None' and versificationSystemName!='Unknown':
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "Uses {!r} versification system".format( versificationSystemName ) )
             BibleVersificationSystem.__init__( self, versificationSystemName )
@@ -333,7 +335,7 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
 
         # Do some cross-checking
         myBooks = getOrganisationalSystemValue( 'includesBooks' )
-        if myBooks is not None:
+        if myBooks is not None and haveBookOrder:
             for BBB in myBooks:
                 if not BibleBookOrderSystem.containsBook( self, BBB ):
                     logging.error( _("Book {!r} is included in {} system but missing from {} book order system").format( BBB, self.__systemName, BibleBookOrderSystem.getBookOrderSystemName( self ) ) )
-- 
2.43.0


From cdf3cf8454e9bf727d5ac190553dc8c5c18d51ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 004/140] fix: sorting of references went wrong above chapter
 99 or verse 149, and with verse suffixes

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index fc14f86..ecea35d 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -714,28 +714,24 @@ class BibleBooksCodes:
         try:
             BBB, C, V = BCVReferenceTuple
             S = ''
-        except:
+        except ValueError: # Must be a four-tuple
             BBB, C, V, S = BCVReferenceTuple
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, BCVReferenceTuple ); halt # Need to finish handling BCVReferenceTuple
         result = self.getReferenceNumber( BBB )
 
         try:
             intC = int( C )
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(C) ); halt # Need to finish handling C
-        result = result * 100 + intC
+        result = result * 1000 + intC # There's up to 151 chapters in a book
 
         try:
             intV = int( V.split('-')[0] ) # If it's a verse span e.g., 3-4, just take the first part
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(V) ); halt # Need to finish handling V
-        result = result * 150 + intV
+        result = result * 1000 + intV # There's up to 176 verses in a chapter
 
-        try:
-            intS = {'a':0, 'b':1}[S.lower()] if S else 0
-        except ValueError:
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(S) ); halt # Need to finish handling S
-        result = result * 10 + intS
+        intS = ord( S[0].lower() ) - ord( 'a' ) + 1 if S else 0 # Optional suffix letter
+        result = result * 100 + intS
 
         return result
     # end of BibleBooksCodes.BCVReferenceToInt
-- 
2.43.0


From 52ca4d1d94006480d9b759b74932b4648c63412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 005/140] fix: looking up a value in an edition which uses the
 text of its own name recursed forever

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index bd0a803..d9ba3c7 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -238,8 +238,9 @@ class BibleOrganisationalSystems:
                 for possibleType in reversed( BibleOrgSysGlobals.ALLOWED_ORGANISATIONAL_TYPES ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'possibleType', possibleType )
                     for trySystemName in trySystemNames:
-                        if trySystemName == systemName: # Avoid infinite recursion
+                        if self.getOrganisationalSystem( trySystemName, suppressErrors=True ) is thisSystem: # Avoid infinite recursion
                             trySystemName += '_' + possibleType
+                            if self.getOrganisationalSystem( trySystemName, suppressErrors=True ) is thisSystem: continue
                         result = self.getOrganisationalSystemValue( trySystemName, valueName, suppressErrors=True )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "trySystemName result is {}".format( repr(result) ) ); halt
                         if result is not None: return result
-- 
2.43.0


From 64ade1140c95d68bbabd13027daa88cc23772615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 006/140] fix: an unquoted attribute of a USFM3 figure
 swallowed all the attributes after it

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index f0bc06a..d366052 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -348,7 +348,7 @@ def parseFigureAttributes( workName, BBB:str, C:str, V:str, figureAttributeStrin
                     state = 3
             elif state == 3: # Getting attribute value -- stop at matching quote or space
                 if char == quote \
-                or ( quote==' ' and char.isspace() ):
+                or ( quote=='' and char.isspace() ):
                     assert name
                     assert value
                     resultDict[name] = value
-- 
2.43.0


From b0cdd72e601d98cd15ee8db01fce95955fdc5ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 007/140] fix: comparing Bible entries or notes raised
 AttributeError

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index d366052..2e69bc8 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -412,8 +412,8 @@ class InternalBibleExtra:
     # end of InternalBibleExtra.__init__
 
 
-    def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+    def __eq__( self, other ): # No __dict__ because of __slots__
+        if type( other ) is type( self ): return list( self ) == list( other )
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -491,8 +491,8 @@ class InternalBibleExtraList:
     # end of InternalBibleExtraList.__str__
 
     def __len__( self ): return len( self.data )
-    def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+    def __eq__( self, other ): # No __dict__ because of __slots__
+        if type( other ) is type( self ): return self.data == other.data
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -645,7 +645,7 @@ class InternalBibleEntry:
         #for someKey, someItem in sorted( other.__dict__.items() ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'other', someKey, repr(someItem) )
         #halt
-        return isinstance( other, self.__class__ ) and self.__dict__ == other.__dict__
+        return isinstance( other, self.__class__ ) and list( self ) == list( other ) # No __dict__ because of __slots__
     def __ne__( self, other ):
         return not self.__eq__( other )
 
-- 
2.43.0


From 2376eb11ff797c8bf7445dea0e68d24390dfa76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 008/140] fix: adding two lists of Bible entries altered the
 first one

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index 2e69bc8..b8b2ea9 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -871,8 +871,9 @@ class InternalBibleEntryList:
         So we can use Python + operator to add lists (e.g., to combine verses)
         """
         assert isinstance( listToAppend, InternalBibleEntryList ), f"__add__ {type(listToAppend)=} {listToAppend=}"
-        self.data.extend( listToAppend )
-        return self
+        result = InternalBibleEntryList( self ) # Don't alter our own list
+        result.extend( listToAppend )
+        return result
     # end of InternalBibleEntryList.__add__
 
 
-- 
2.43.0


From 6e7f3a0441c6072989265b6424bd9b9edf88dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 009/140] fix: '- ' and '+ ' were removed from anywhere in the
 cleaned text of a note

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index b1e1fb6..1b9b7f7 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1098,7 +1098,7 @@ class InternalBibleBook:
                             .replace( '&gt;',  '>' ) \
                             .replace( '&quot;', '"' ) # Undo any replacements above
             for sign in ('- ', '+ '): # Remove common leader characters (and the following space)
-                cleanedNote = cleanedNote.replace( sign, '' )
+                if cleanedNote.startswith( sign ): cleanedNote = cleanedNote[len(sign):]
             # TODO: This is bad having a list like this inside the code!!!
             for marker in ['\\xo*','\\xo ', '\\xt*','\\xt ', '\\xta*','\\xta ', '\\xk*','\\xk ', '\\xq*','\\xq ', '\\xop*','\\xop ', 
                             '\\xot*','\\xot ', '\\xnt*','\\xnt ', '\\xdc*','\\xdc ',
-- 
2.43.0


From d474accff67ff0c8deb6681fe394260fed1960b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 010/140] fix: fetching a chapter returned the following
 chapters too when the next number is missing

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 28 ++++++++-----------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index fae2409..cfb53af 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -273,14 +273,19 @@ class InternalBibleBookCVIndex:
         Raises a KeyError if the C key doesn't exist.
         """
         firstIndexEntry = self.__indexData[(C,'0')]
-        try:
-            nextIndexEntry = self.__indexData[(str(int(C)+1),'0')]
-            return self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()]
-        except KeyError: # presumably no more chapters
-            return self.givenBibleEntries[firstIndexEntry.getEntryIndex():]
+        return self.givenBibleEntries[firstIndexEntry.getEntryIndex():self.__getNextChapterIndex( C )]
     # end of InternalBibleBookCVIndex.getChapterEntries
 
 
+    def __getNextChapterIndex( self, C:str ) -> int:
+        """
+        Given C, return the index of the first entry after this chapter
+            (which is not always chapter C+1, e.g., if the following chapter is missing).
+        """
+        return max( indexEntry.getNextEntryIndex() for (thisC,_thisV),indexEntry in self.__indexData.items() if thisC==C )
+    # end of InternalBibleBookCVIndex.__getNextChapterIndex
+
+
     def getVerseEntriesWithContext( self, CVkey:tuple[str,str], strict:bool|None=False, complete:bool|None=False ) -> tuple[InternalBibleEntryList,list[str]]:
         """
         Given C:V, return a 2-tuple containing
@@ -428,18 +433,7 @@ class InternalBibleBookCVIndex:
         except KeyError as err:
             (logging.warning if C=='0' else logging.error)( f"getChapterEntriesWithContext {self.workName} couldn't get {self.BBB} ({C},0){f' from {self.__indexData.keys()}' if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag else ''}")
             raise err
-        try:
-            nextIndexEntry = self.__indexData[(str(int(C)+1),'0')]
-            return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()] ), firstIndexEntry.getContextList()
-        except KeyError: # Couldn't find the next chapter
-            if C != '-1': # presumably no more chapters
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():] ), firstIndexEntry.getContextList()
-            # else it's a bit more complicated finding the introduction because mostly there's no chapter zero
-            try:
-                nextIndexEntry = self.__indexData[('1','0')]
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()] ), firstIndexEntry.getContextList()
-            except KeyError: # give up and just return everything
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():] ), firstIndexEntry.getContextList()
+        return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():self.__getNextChapterIndex( C )] ), firstIndexEntry.getContextList()
     # end of InternalBibleBookCVIndex.getChapterEntriesWithContext
 
 
-- 
2.43.0


From 18222d528775c9ede2ceed633a9de675f09786ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 011/140] fix: a complete search for a verse bridge or part
 returned it twice

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index cfb53af..a6b56da 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -341,7 +341,8 @@ class InternalBibleBookCVIndex:
 
         # Now look for specific verses that match
         try:
-            indexEntries.append( self.__indexData[CVkey] )
+            if self.__indexData[CVkey] not in indexEntries: # otherwise we already found it above
+                indexEntries.append( self.__indexData[CVkey] )
         except KeyError:
             dPrint( 'Info', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextB {self.workName} was unable to immediately find {self.BBB} {CVkey=}")
             if strict or CVkey[0]=='-1': # strict selection or else in the introduction (no verse ranges there)
-- 
2.43.0


From ccaa101ab88b30edeeb9cb70a515d380e91afa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 012/140] fix: a lenient verse range over several chapters
 raised NameError at a missing verse

---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 1b9b7f7..0f29f0e 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5283,7 +5283,6 @@ class InternalBibleBook:
                         else:
                             if not strict:
                                 logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}) for {self.workName} {self.BBB} failed at {strC}:{strV}")
-                                halt
                                 break # return what we've got
                             raise kerr
                     else: # we're only doing one chapter
-- 
2.43.0


From 1e4215d2dd10001c5411d6879761edacff124f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 013/140] fix: verse ranges over several books always raised
 KeyError

---
 BibleOrgSys/Internals/InternalBible.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index b1f4c43..7ed2785 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2335,9 +2335,15 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
             if endBBB == startBBB: # most common case
                 return self.books[startBBB].getContextVerseDataRange( startBCVReference, endBCVReference, strict=strict )
             else: # sometimes they can be different books
-                verseEntryList1, contextList1 = self.books[startBBB].getContextVerseDataRange( startBCVReference, (startBBB,'999','999'), strict=strict )
-                verseEntryList2, _contextList2 = self.books[startBBB].getContextVerseDataRange( (endBBB,'1','1'), endBCVReference, strict=strict )
-                return verseEntryList1+verseEntryList2, contextList1
+                def getLastCV( BBB:str ) -> tuple[str,str]:
+                    lastC = self.books[BBB].getNumChapters()
+                    return str(lastC), str(self.books[BBB].getNumVerses( str(lastC) ))
+                verseEntryList, contextList = self.books[startBBB].getContextVerseDataRange( startBCVReference, (startBBB,*getLastCV(startBBB)), strict=strict )
+                loadedBBBs = list( self.books )
+                for BBB in loadedBBBs[loadedBBBs.index(startBBB)+1:loadedBBBs.index(endBBB)]: # The whole of any books in between
+                    verseEntryList = verseEntryList + self.books[BBB].getContextVerseDataRange( (BBB,'1','1'), (BBB,*getLastCV(BBB)), strict=strict )[0]
+                verseEntryList2, _contextList2 = self.books[endBBB].getContextVerseDataRange( (endBBB,'1','1'), endBCVReference, strict=strict )
+                return verseEntryList+verseEntryList2, contextList
         else:
             logging.warning( f"InternalBible.getContextVerseDataRange( {startBCVReference}, {endBCVReference}, {strict=} ): {self.name} doesn't have {startBBB}{'' if endBBB==startBBB else f' or {endBBB}'}" )
     # end of InternalBible.getContextVerseDataRange
-- 
2.43.0


From 8e7c111c1fb90694f89527f15f19843620010a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 014/140] fix: searches without the main text raised
 AssertionError, missed the introduction or missed later notes

---
 BibleOrgSys/Internals/InternalBible.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 7ed2785..29a97e3 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2555,21 +2555,18 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
 
                         # Get our text to search
                         origTextToBeSearched = lineEntry.getFullText() if optionsDict['includeExtrasFlag'] else cleanText
-                        if C != '0' and not optionsDict['includeMainTextFlag']:
+                        if C != '-1' and not ourMarkerList and not optionsDict['includeMainTextFlag']:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got {!r} but  don't include main text".format( origTextToBeSearched ) )
                             if marker in ('v~','p~') or marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                                 origTextToBeSearched = ''
-                                if origTextToBeSearched != cleanText: # we must have extras -- we need to remove the main text
-                                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Got extras" )
-                                    assert optionsDict['includeExtrasFlag']
-                                    origTextToBeSearched = ''
-                                    for extra in lineEntry.getExtras():
+                                if optionsDict['includeExtrasFlag']: # we need to keep only any extras
+                                    for extra in lineEntry.getExtras() or []:
                                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "extra", extra )
                                         extraStart = ''
                                         if optionsDict['includeMarkerTextFlag']:
                                             eTypeIndex = BOS_EXTRA_TYPES.index( extra.getType() )
                                             extraStart = '\\{} '.format( BOS_EXTRA_MARKERS[eTypeIndex] )
-                                        origTextToBeSearched += ' ' if origTextToBeSearched else '' + extraStart + extra.getText()
+                                        origTextToBeSearched += (' ' if origTextToBeSearched else '') + extraStart + extra.getText()
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Now", repr(origTextToBeSearched) )
                         if optionsDict['includeMarkerTextFlag']:
                             origTextToBeSearched = '\\{} {}'.format( marker, origTextToBeSearched )
-- 
2.43.0


From e13256c40ef7fc68c154fba25bb482d2789cc5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 015/140] fix: caseless regular expression searches never
 matched capital letters

---
 BibleOrgSys/Internals/InternalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 29a97e3..f7fdfe5 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2513,7 +2513,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         if ourFindText.lower().startswith( 'regex:' ):
             optionsDict['regexFlag'] = True
             ourFindText = ourFindText[6:]
-            compiledFindText = re.compile( ourFindText )
+            compiledFindText = re.compile( ourFindText, re.IGNORECASE if optionsDict['caselessFlag'] else 0 )
         if optionsDict['ignoreDiacriticsFlag']: ourFindText = BibleOrgSysGlobals.removeAccents( ourFindText )
         if optionsDict['caselessFlag']: ourFindText = ourFindText.lower()
         searchLen = len( ourFindText )
-- 
2.43.0


From 31bd70f4ba7d52d7834bdc919ee6abc6924b6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 016/140] fix: searching by marker raised UnboundLocalError for
 verses before the first paragraph

---
 BibleOrgSys/Internals/InternalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index f7fdfe5..3016713 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2530,7 +2530,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                 #self.loadBookIfNecessary( BBB )
                 resultSummaryDict['searchedBookList'].append( BBB )
                 C, V = '-1', '-1' # So first/id line starts at -1:0
-                marker = None
+                marker = lastParagraphMarker = None
                 for lineEntry in bookObject:
                     if marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                         lastParagraphMarker = marker
-- 
2.43.0


From fa9bf7ce991fd5e1a807d5724c6056b8d3c7aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 017/140] fix: search results in the introduction gave a line
 number which is not the one of the index

---
 BibleOrgSys/Internals/InternalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 3016713..23a7894 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2536,11 +2536,11 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                         lastParagraphMarker = marker
 
                     marker, cleanText = lineEntry.getMarker(), lineEntry.getCleanText()
+                    if C == '-1' and marker != 'c': V = str( int(V) + 1 ) # Count each line, same as the CV index does
                     if marker[0] == '¬': continue # we'll always ignore these added lines
                     if marker in ('headers','intro','chapters'): continue # we'll always ignore these added lines
                     if marker == 'c': C, V = cleanText, '0'
                     elif marker == 'v': V = cleanText
-                    elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 )
                     if ourMarkerList:
                         if marker not in ourMarkerList and not (marker in ('v~','p~') and lastParagraphMarker in ourMarkerList):
                             continue
-- 
2.43.0


From 3be90baec606dabb4d6a064c55ed725b6c56d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 018/140] fix: several section headings inside one verse lost
 all but the last section from the section index

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index a6b56da..5562096 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1327,6 +1327,8 @@ class InternalBibleBookSectionIndex:
             # Save this new index entry
             if DEBUGGING_THIS_MODULE and (startC,startV) in tempIndexData:
                 dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"           About to rewrite {startC}:{startV} in section index" )
+            while (startC,startV) in tempIndexData: # Don't lose a section, e.g., if there's several section headings inside one verse
+                startV = f'{startV[:-1]}{chr(ord(startV[-1])+1)}' if startV[-1:].isalpha() else f'{startV}a'
             tempIndexData[(startC,startV)] = (startC,startV, endC,endV, startIx,endIx, reasonMarker, sectionName, None)
         # end of _saveAnySectionOutstanding
 
-- 
2.43.0


From 61be7292ad0919579057f7718b1e14329602b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 019/140] fix: a non-SFM line at the start of a file wasn't
 ignored, and a line of spaces lost the ESFM line after it

---
 BibleOrgSys/InputOutput/ESFMFile.py | 5 +++--
 BibleOrgSys/InputOutput/SFMFile.py  | 2 +-
 BibleOrgSys/InputOutput/USFMFile.py | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/InputOutput/ESFMFile.py b/BibleOrgSys/InputOutput/ESFMFile.py
index b03df82..8beaabb 100755
--- a/BibleOrgSys/InputOutput/ESFMFile.py
+++ b/BibleOrgSys/InputOutput/ESFMFile.py
@@ -115,7 +115,8 @@ class ESFMFile:
                     if line[0]=='#': continue # Just discard comment lines
 
                     while line and line[0]==' ': line = line[1:] # Remove leading spaces
-                    if line and line[0]!='\\': # Not a SFM line
+                    if not line: continue # Just discard lines which only contained spaces
+                    if line[0]!='\\': # Not a SFM line
                         if len(result)==0: # We don't have any SFM data lines yet
                             if BibleOrgSysGlobals.verbosityLevel > 2:
                                 logging.error( "Non-ESFM line in " + esfm_filename + " -- line ignored at #" + str(lineCount) )
@@ -129,7 +130,7 @@ class ESFMFile:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     marker, text = splitUSFMMarkerFromText( line )
                     if marker not in ignoreSFMs:
diff --git a/BibleOrgSys/InputOutput/SFMFile.py b/BibleOrgSys/InputOutput/SFMFile.py
index 09c40b2..0b7e113 100755
--- a/BibleOrgSys/InputOutput/SFMFile.py
+++ b/BibleOrgSys/InputOutput/SFMFile.py
@@ -125,7 +125,7 @@ class SFMLines:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     lineAfterBackslash = line[1:]
                     si1 = lineAfterBackslash.find( ' ' )
diff --git a/BibleOrgSys/InputOutput/USFMFile.py b/BibleOrgSys/InputOutput/USFMFile.py
index fcec6a7..e78a605 100755
--- a/BibleOrgSys/InputOutput/USFMFile.py
+++ b/BibleOrgSys/InputOutput/USFMFile.py
@@ -177,7 +177,7 @@ class USFMFile:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     marker, text = splitUSFMMarkerFromText( line )
                     if marker not in ignoreSFMs:
-- 
2.43.0


From bcf62c4cbfee71434f1beaa9e5edb5ad13533cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 020/140] fix: USFM lines which begin with a character marker
 were lost, and unclosed \w fields wiped the line

---
 BibleOrgSys/Formats/USFMBibleBook.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index c24f716..2d174f7 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -449,7 +449,8 @@ class USFMBibleBook( BibleBook ):
                                     .format( self.BBB, C, V, marker, text ) )
                 logging.error( _("Found wrongly coded w fields in \\{}='{}' after {} {} {}:{}") \
                                     .format( marker, text, self.workName, self.BBB, C, V ) )
-                text = f'{text}\\w*' if marker=='w' else ' '
+                if marker == 'w': text = f'{text}\\w*'
+                elif gotUWEncoding: text = ' '
             if (marker == 'w' and text.count('\\w ')+1 !=  text.count('\\w*')) \
             or (marker != 'w' and  text.count('\\w ') !=  text.count('\\w*')):
                 loadErrors.append( _("{} {}:{} Found mismatched w fields in \\{}='{}'") \
@@ -578,7 +579,7 @@ class USFMBibleBook( BibleBook ):
                         marker = text = None # Seems to make no difference
                     elif marker == 'w' and lastMarker in ('ts','sp'): # \\ts: A common unfoldingWord USFM encoding error; \\sp in Hindu SNG
                         logging.error( f"USFMBibleBook.load() '{self.workName}' {self.BBB}_{C}:{V} added new paragraph for encoding error after {lastMarker}='{lastText}': {marker}='{text}'" )
-                        marker, text = 'p', '\\w {text}'
+                        marker, text = 'p', f'\\w {text}'
                     elif marker == 'p~' and lastMarker == 'ts': # A common unfoldingWord USFM encoding error
                         logging.error( f"USFMBibleBook.load() '{self.workName}' {self.BBB}_{C}:{V} added new paragraph for encoding error after {lastMarker}='{lastText}': {marker}='{text}'" )
                         marker = 'p'
@@ -590,6 +591,10 @@ class USFMBibleBook( BibleBook ):
                         #dPrint( 'Never', debuggingThisFunction, 'USFM Para Markers', BibleOrgSysGlobals.USFMParagraphMarkers )
                         logging.critical( f"Programming error ¬ZALN: USFMBibleBook.load() lost '{self.workName}' {self.BBB}_{C}:{V} text after {lastMarker}='{lastText}': {marker}='{text}'" )
                         if self.doExtraChecking: halt
+                elif lastMarker: # not uW encoding
+                    if not lastText.endswith(' '): lastText += ' ' # Not always good to add a space, but it's their fault!
+                    lastText += '\\' + marker + ('' if marker.endswith('*') else ' ') + text
+                    marker = text = None # It's been appended to the previous line
             elif BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker ) \
             or marker.endswith('*') and BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker[:-1] ): # the line begins with a note marker -- append it to the previous line
                 if text:
-- 
2.43.0


From b8f3b098589672af9a0927743033f3e117eef2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 021/140] fix: text after a chapter number had the chapter
 number in its full text again (so it was repeated by every USFM export)

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 0f29f0e..2b1cd53 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2653,7 +2653,7 @@ class InternalBibleBook:
             #goodStart =  len(originalText)>1 and originalText[0]==' ' and originalText[1]!=' '
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'Gs', goodStart, repr(verseNumberRest[1:] if goodStart else originalText) )
             #__doAppendEntry( adjustedMarker, originalMarker, text, verseNumberRest if originalMarker=='v' and adjustedMarker=='v~' else originalText )
-            __doAppendEntry( adjustedMarker, originalMarker, text, text if originalMarker=='v' and adjustedMarker=='v~' else originalText )
+            __doAppendEntry( adjustedMarker, originalMarker, text, text if (originalMarker,adjustedMarker) in (('v','v~'),('c','c~')) else originalText )
         # end of InternalBibleBook.processLines._processLine
 
 
-- 
2.43.0


From 0e0e7f2df3ac22d874f87485be9ccf5d13e199b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 022/140] fix: a USFM3 export declared its USFM version only in
 the first book

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b094df8..07ca308 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -808,7 +808,6 @@ class BibleWriter( InternalBible ):
         #assert controlDict and isinstance( controlDict, dict )
 
         # ignoredMarkers = set()
-        addedUSFMversionField = False
 
         # Adjust the extracted outputs
         for BBB,bookObject in self.books.items():
@@ -827,6 +826,7 @@ class BibleWriter( InternalBible ):
                     numC = numV = 0
 
             bookUSFM = ''
+            addedUSFMversionField = False # for this book
             # Prepend any important missing (header/title) fields
             if internalBibleBookData.contains( 'id', 1 ) is None:
                 bookUSFM += '\\id {} — BibleOrgSys USFM3 export v{}'.format( USFMAbbreviation.upper(), PROGRAM_VERSION )
-- 
2.43.0


From 6526108bfb3e9ac6d86384998664e566ba150a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 023/140] fix: a USFM export without verse bridges lost the
 verse numbers of a bridge at the end of a book

---
 BibleOrgSys/BibleWriter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 07ca308..943d61f 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -738,6 +738,10 @@ class BibleWriter( InternalBible ):
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
 
+            if removeVerseBridges and vBridgeStartInt and vBridgeEndInt: # The book ended with a verse bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
+
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
             if self.doExtraChecking:
@@ -911,6 +915,10 @@ class BibleWriter( InternalBible ):
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
 
+            if removeVerseBridges and vBridgeStartInt and vBridgeEndInt: # The book ended with a verse bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
+
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
             if self.doExtraChecking:
-- 
2.43.0


From 0eecb0d42a3b196e5195ab12a980f3e5db3ad971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 024/140] =?UTF-8?q?fix:=20a=20USFM=20export=20wrote=20the?=
 =?UTF-8?q?=20internal=20cl=C2=A4=20marker=20instead=20of=20cl?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 BibleOrgSys/BibleWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 943d61f..6faf5de 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -685,6 +685,7 @@ class BibleWriter( InternalBible ):
                     #bookUSFM += '\\id {} — BibleOrgSys USFM2 export v{}'.format( USFMAbbreviation.upper(), PROGRAM_VERSION )
                 if '¬' in pseudoMarker or pseudoMarker in BOS_CUSTOM_NESTING_MARKERS or pseudoMarker=='v=':
                     continue # Just ignore added markers — not needed here
+                if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # This is the cl field that was before the first chapter
                 if pseudoMarker in ('c#','vp#',):
                     ignoredMarkers.add( pseudoMarker )
                     continue
@@ -856,6 +857,7 @@ class BibleWriter( InternalBible ):
                     #bookUSFM += '\\id {} — BibleOrgSys USFM3 export v{}'.format( USFMAbbreviation.upper(), PROGRAM_VERSION )
                 if '¬' in pseudoMarker or pseudoMarker in BOS_CUSTOM_NESTING_MARKERS or pseudoMarker=='v=':
                     continue # Just ignore added markers — not needed here
+                if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # This is the cl field that was before the first chapter
                 if pseudoMarker in ('c#','vp#',):
                     # ignoredMarkers.add( pseudoMarker )
                     continue
-- 
2.43.0


From 84dec5366bd717a6811ea477ec842a4a723ddebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 025/140] fix: a USFM export wrote an empty iot field for an
 introduction outline without a title

---
 BibleOrgSys/BibleWriter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 6faf5de..3f70d55 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -686,6 +686,8 @@ class BibleWriter( InternalBible ):
                 if '¬' in pseudoMarker or pseudoMarker in BOS_CUSTOM_NESTING_MARKERS or pseudoMarker=='v=':
                     continue # Just ignore added markers — not needed here
                 if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # This is the cl field that was before the first chapter
+                if pseudoMarker=='iot' and processedBibleEntry.getOriginalMarker() is None:
+                    continue # This one was only added for nesting (It wasn't a field with an outline title)
                 if pseudoMarker in ('c#','vp#',):
                     ignoredMarkers.add( pseudoMarker )
                     continue
@@ -858,6 +860,8 @@ class BibleWriter( InternalBible ):
                 if '¬' in pseudoMarker or pseudoMarker in BOS_CUSTOM_NESTING_MARKERS or pseudoMarker=='v=':
                     continue # Just ignore added markers — not needed here
                 if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # This is the cl field that was before the first chapter
+                if pseudoMarker=='iot' and processedBibleEntry.getOriginalMarker() is None:
+                    continue # This one was only added for nesting (It wasn't a field with an outline title)
                 if pseudoMarker in ('c#','vp#',):
                     # ignoredMarkers.add( pseudoMarker )
                     continue
-- 
2.43.0


From d8006624b30f6d3053f24db490df9564f898f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 026/140] fix: a USFM export added another space each time
 before text that follows a chapter number

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 3f70d55..1c678d5 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -724,7 +724,7 @@ class BibleWriter( InternalBible ):
                 if pseudoMarker[-1] == '~':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "psMarker ends with squiggle: {!r}={!r}".format( pseudoMarker, fullText ) )
                     if self.doExtraChecking: assert pseudoMarker[:-1] in ('v','p','c')
-                    bookUSFM += (' ' if bookUSFM and bookUSFM[-1]!=' ' else '') + fullText
+                    bookUSFM += (' ' if bookUSFM and bookUSFM[-1]!=' ' and not fullText.startswith( ' ' ) else '') + fullText
                 else: # not a continuation marker
                     adjValue = fullText
                     #if pseudoMarker in ('it','bk','ca','nd',): # Character markers to be closed — had to remove ft and xt from this list for complex footnotes with f fr fq ft fq ft f*
@@ -904,7 +904,7 @@ class BibleWriter( InternalBible ):
                 if pseudoMarker[-1] == '~':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "psMarker ends with squiggle: {!r}={!r}".format( pseudoMarker, fullText ) )
                     if self.doExtraChecking: assert pseudoMarker[:-1] in ('v','p','c')
-                    bookUSFM += (' ' if bookUSFM and bookUSFM[-1]!=' ' else '') + fullText
+                    bookUSFM += (' ' if bookUSFM and bookUSFM[-1]!=' ' and not fullText.startswith( ' ' ) else '') + fullText
                 else: # not a continuation marker
                     adjValue = fullText
                     #if pseudoMarker in ('it','bk','ca','nd',): # Character markers to be closed — had to remove ft and xt from this list for complex footnotes with f fr fq ft fq ft f*
-- 
2.43.0


From b963570bb19408dbc7ce912d94fe3c2dab172404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 027/140] fix: plain text and verse-per-line exports put
 references and headings into verse texts

---
 BibleOrgSys/BibleWriter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 1c678d5..7b5a7aa 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1172,7 +1172,7 @@ class BibleWriter( InternalBible ):
                     marker, text = entry.getMarker(), entry.getCleanText() # Clean text has no notes or character formatting
                     if marker.startswith('¬') or marker in ('c#','v='):
                         continue # silent ignore some of our added markers
-                    if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('r','d','sp','cp','ie'):
+                    if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('r','sr','mr', 'd','sp','qa', 'cp','cd','cl', 'lit', 'ie'):
                         ignoredMarkers.add( marker ) # Just ignore these lines
                     elif marker == 'h':
                         if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
@@ -1292,7 +1292,8 @@ class BibleWriter( InternalBible ):
                         if marker in ('c#','vp#',):
                             ignoredMarkers.add( marker )
                             continue
-                        if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
+                        if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS \
+                        or marker in ('r','sr','mr', 'd','sp','qa', 'cp','cd','cl', 'lit', 'ie'): # Just ignore these lines
                             ignoredMarkers.add( marker )
                         elif marker == 'h':
                             ignoredMarkers.add( marker )
-- 
2.43.0


From f2324ae1104b7edde6bac1d60123d5046b904d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 028/140] fix: text before the first verse of a chapter was
 exported as part of the previous chapter's last verse

---
 BibleOrgSys/BibleWriter.py              | 30 ++++++++++++++++---------
 BibleOrgSys/Formats/OpenSongXMLBible.py | 12 +++++-----
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7b5a7aa..8aef545 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1168,6 +1168,7 @@ class BibleWriter( InternalBible ):
                     except UnicodeEncodeError: # why does this fail on Windows???
                         logger.critical( "toText.writeTextFile: Unable to write BOM to file" )
                 gotVP = None
+                atChapterStart = False
                 for entry in internalBibleBookData:
                     marker, text = entry.getMarker(), entry.getCleanText() # Clean text has no notes or character formatting
                     if marker.startswith('¬') or marker in ('c#','v='):
@@ -1189,6 +1190,7 @@ class BibleWriter( InternalBible ):
                         C = text
                         if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
                         myFile.write( "\n\nChapter {}".format( text ) )
+                        atChapterStart = True
                     elif marker == 'vp#': # This precedes a v field and has the verse number to be printed
                         gotVP = text # Just remember it for now
                     elif marker == 'v':
@@ -1197,12 +1199,14 @@ class BibleWriter( InternalBible ):
                             text = gotVP
                             gotVP = None
                         if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
+                        atChapterStart = False
                         myFile.write( "\n{} ".format( text ) )
                     elif marker in ('p','pi1','pi2','pi3','pi4', 's1','s2','s3','s4', 'ms1','ms2','ms3','ms4',): # Drop out these fields
                         ignoredMarkers.add( marker )
                     elif text:
                         #if marker not in ('p~','v~'): # The most common ones
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toText.writeTextFile: Using marker {!r}:{!r}".format( marker, text ) )
+                        if atChapterStart: myFile.write( '\n' ); atChapterStart = False # Text before the first verse needs its own line
                         textBuffer += (' ' if textBuffer else '') + text
                 if textBuffer: myFile.write( "{}\n".format( textBuffer ) ) # Write the last bit
 
@@ -1285,6 +1289,7 @@ class BibleWriter( InternalBible ):
 
                     gotVP = None
                     haveP = False
+                    haveV = False # Text before the first verse in a chapter is included with that verse
                     for entry in internalBibleBookData:
                         marker, text = entry.getMarker(), entry.getCleanText()
                         if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
@@ -1310,8 +1315,9 @@ class BibleWriter( InternalBible ):
                             #if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
                             #myFile.write( "\n{}{}\n\n".format( ' '*((columnWidth-len(text))//2), text ) )
                         elif marker == 'c':
-                            if textBuffer: myFile.write( "{}\n".format( textBuffer ) ); textBuffer = ''
-                            C = text
+                            if textBuffer and haveV: myFile.write( "{}\n".format( textBuffer ) )
+                            textBuffer = ''
+                            C, haveV = text, False
                         elif marker == 'vp#': # This precedes a v field and has the verse number to be printed
                             gotVP = text # Just remember it for now
                         elif marker == 'v':
@@ -1319,9 +1325,10 @@ class BibleWriter( InternalBible ):
                             if gotVP: # this is the verse number to be published
                                 text = gotVP
                                 gotVP = None
-                            if textBuffer: myFile.write( "{}\n".format( textBuffer ) ); textBuffer = ''
+                            if textBuffer and haveV: myFile.write( "{}\n".format( textBuffer ) ); textBuffer = ''
+                            haveV = True
                             myFile.write( "\n$$ {} {}:{}\n".format( bookName, C, V ) )
-                            if haveP: textBuffer = '¶'; haveP = False
+                            if haveP: textBuffer = '¶' + (' ' if textBuffer else '') + textBuffer; haveP = False
                         elif marker == 'p':
                             haveP = True
                         elif marker in ('pi1','pi2','pi3','pi4', 's1','s2','s3','s4', 'ms1','ms2','ms3','ms4',): # Drop out these fields
@@ -1329,7 +1336,7 @@ class BibleWriter( InternalBible ):
                         elif text:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "do Marker", repr(marker), repr(text) )
                             textBuffer += (' ' if textBuffer else '') + text
-                    if textBuffer: myFile.write( "{}\n".format( textBuffer ) ) # Write the last bit
+                    if textBuffer and haveV: myFile.write( "{}\n".format( textBuffer ) ) # Write the last bit
 
                         #if verseByVerse:
                             #myFile.write( "{} ({}): {!r} {!r} {}\n" \
@@ -7250,7 +7257,7 @@ class BibleWriter( InternalBible ):
                 return
 
             internalBibleBookData = bookObject._processedLines
-            started, gotVP, accumulator = False, None, "" # Started flag ignores fields in the book introduction
+            started, gotVP, accumulator = False, None, "" # Text before the first verse in a chapter is included with that verse
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for entry in internalBibleBookData:
                 marker, text = entry.getMarker(), entry.getCleanText()
@@ -7263,7 +7270,10 @@ class BibleWriter( InternalBible ):
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
-                elif marker == 'c': C, V = text, '0'
+                elif marker == 'c':
+                    if accumulator and started: writer.write( "{}\n".format( accumulator ) )
+                    accumulator, started = '', False
+                    C, V = text, '0'
                 elif marker in ('c#',):
                     ignoredMarkers.add( marker )
                 elif marker == 'vp#': # This precedes a v field and has the verse number to be printed
@@ -7273,8 +7283,8 @@ class BibleWriter( InternalBible ):
                     if gotVP: # this is the verse number to be published
                         text = gotVP
                         gotVP = None
+                    if accumulator and started: writer.write( "{}\n".format( accumulator ) ); accumulator = ''
                     started = True
-                    if accumulator: writer.write( "{}\n".format( accumulator ) ); accumulator = ''
                     writer.write( "$$ {} {}:{}\n".format( bookCode, C, text ) )
 
                 elif marker in ('mt1','mt2','mt3','mt4', 'mte1','mte2','mte3','mte4', 'ms1','ms2','ms3','ms4', ) \
@@ -7288,14 +7298,14 @@ class BibleWriter( InternalBible ):
                     if self.doExtraChecking: assert not text
                     ignoredMarkers.add( marker )
                 elif marker in ('v~', 'p~',):
-                    if started: accumulator += (' ' if accumulator else '') + text
+                    if C != '-1': accumulator += (' ' if accumulator else '') + text # Ignore fields in the book introduction
                 else:
                     if text:
                         logger.error( "toSwordSearcher: {} lost text in {} field in {} {}:{} {!r}".format( self.abbreviation, marker, BBB, C, V, text ) )
                         #if BibleOrgSysGlobals.debugFlag: halt
                     unhandledMarkers.add( marker )
                 #if extras and marker not in ('v~','p~',): logger.critical( "toSwordSearcher: extras not handled for {} at {} {}:{}".format( marker, BBB, C, V ) )
-            if accumulator: writer.write( "{}\n".format( accumulator ) )
+            if accumulator and started: writer.write( "{}\n".format( accumulator ) )
         # end of toSwordSearcher:writeSSBook
 
 
diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 1089419..7b5c688 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -262,9 +262,9 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
             if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                 ignoredMarkers.add( marker )
             elif marker == 'c':
-                if accumulator:
+                if accumulator and startedFlag:
                     writerObject.writeLineOpenClose ( 'v', accumulator, ('n',verseNumberString) )
-                    accumulator = ''
+                accumulator, startedFlag = '', False # Text before the first verse in a chapter is included with that verse
                 if haveOpenChapter:
                     writerObject.writeLineClose ( 'c' )
                 C, V = text, '0'
@@ -279,10 +279,10 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
                 if gotVP: # this is the verse number to be published
                     text = gotVP
                     gotVP = None
-                startedFlag = True
-                if accumulator:
+                if accumulator and startedFlag:
                     writerObject.writeLineOpenClose ( 'v', accumulator, ('n',verseNumberString) )
                     accumulator = ''
+                startedFlag = True
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
                 if not text: logging.warning( "createOpenSongXML: Missing text for v" ); continue
                 verseNumberString = text.replace('<','').replace('>','').replace('"','') # Used below but remove anything that'll cause a big XML problem later
@@ -301,7 +301,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
                 if BibleOrgSysGlobals.debugFlag: assert text or extras
                 if not text: # this is an empty (untranslated) verse
                     text = '- - -' # but we'll put in a filler
-                if startedFlag: accumulator += (' ' if accumulator else '') + BibleOrgSysGlobals.makeSafeXML( text )
+                if C != '-1': accumulator += (' ' if accumulator else '') + BibleOrgSysGlobals.makeSafeXML( text )
             else:
                 if text:
                     logging.warning( "toOpenSong: lost text in {} field in {} {}:{} {!r}".format( marker, BBB, C, V, text ) )
@@ -312,7 +312,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
                 unhandledMarkers.add( marker )
             if extras and marker not in ('v~','p~',) and marker not in ignoredMarkers:
                 logging.critical( "toOpenSong: extras not handled for {} at {} {}:{}".format( marker, BBB, C, V ) )
-        if accumulator:
+        if accumulator and startedFlag:
             writerObject.writeLineOpenClose ( 'v', accumulator, ('n',verseNumberString) )
         if haveOpenChapter:
             writerObject.writeLineClose ( 'c' )
-- 
2.43.0


From ca96183a9312e62618e5a6e4b305438de3223cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 029/140] fix: a BCV export of a book with an introduction
 wrote the first chapter line into the file of the next verse

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 2b1cd53..570ed55 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5347,7 +5347,7 @@ class InternalBibleBook:
                         myFile.write( introLines )
                     introLines = None # Will now cause an error if we try to do more introduction bits -- should only be one intro
                     CVList.append( ('-1',) )
-                elif verseLines:
+                if verseLines:
                     with open( os.path.join( bookFolderpath, self.BBB+'_C'+C+'V'+V+'.txt' ), 'wt', encoding='utf-8' ) as myFile:
                         if BibleOrgSysGlobals.prependBOMFlag:
                             myFile.write( BibleOrgSysGlobals.BOM )
-- 
2.43.0


From 318778ee61d3e9538ba8eb3ecd0356e2775fb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 030/140] fix: the zip file of a BCV export held empty book
 folders

---
 BibleOrgSys/BibleWriter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 8aef545..4b6bff2 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -520,10 +520,11 @@ class BibleWriter( InternalBible ):
         # Now create a zipped collection (for easier download)
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Zipping BCV files…" )
         zf = zipfile.ZipFile( os.path.join( outputFolderpath, 'AllFiles.zip' ), 'w', compression=zipfile.ZIP_DEFLATED )
-        for filename in os.listdir( outputFolderpath ):
-            if not filename.endswith( '.zip' ):
-                filepath = os.path.join( outputFolderpath, filename )
-                zf.write( filepath, filename ) # Save in the archive without the path
+        for folderpath, _folderNames, filenames in os.walk( outputFolderpath ): # There's one folder per book
+            for filename in filenames:
+                if not filename.endswith( '.zip' ):
+                    filepath = os.path.join( folderpath, filename )
+                    zf.write( filepath, os.path.relpath( filepath, outputFolderpath ) ) # Save in the archive without the path above the output folder
         zf.close()
 
         if BibleOrgSysGlobals.maxProcesses > 1:
-- 
2.43.0


From 5a53fbce44007582ca14f496a14ef951f036db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 031/140] fix: SwordSearcher and DrupalBible zip files stored
 the exporter's full folder path

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 4b6bff2..50eea4e 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -7338,7 +7338,7 @@ class BibleWriter( InternalBible ):
         # Now create a zipped version
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Zipping {} SwordSearcher file…".format( filename ) )
         zf = zipfile.ZipFile( filepath+'.zip', 'w', compression=zipfile.ZIP_DEFLATED )
-        zf.write( filepath )
+        zf.write( filepath, filename ) # Save in the archive without the path
         zf.close()
 
         if BibleOrgSysGlobals.maxProcesses > 1:
@@ -7519,7 +7519,7 @@ class BibleWriter( InternalBible ):
         # Now create a zipped version
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Zipping {} DrupalBible file…".format( filename ) )
         zf = zipfile.ZipFile( filepath+'.zip', 'w', compression=zipfile.ZIP_DEFLATED )
-        zf.write( filepath )
+        zf.write( filepath, filename ) # Save in the archive without the path
         zf.close()
 
         if BibleOrgSysGlobals.maxProcesses > 1:
-- 
2.43.0


From 5543c9ea4d206b0d3aeaca630ec368586c6e29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 032/140] fix: exporters counted verses for a remark line
 inside a chapter

---
 BibleOrgSys/BibleWriter.py              | 30 ++++++++++++-------------
 BibleOrgSys/Formats/OpenSongXMLBible.py |  2 +-
 BibleOrgSys/Formats/USXXMLBible.py      |  2 +-
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 50eea4e..df05ead 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -587,7 +587,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C == '-1': V = str( int(V) + 1 )
                     if marker == 'c': C, V = adjText, '0'
                     elif marker == 'v': V = adjText
 
@@ -1699,7 +1699,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C == '-1': V = str( int(V) + 1 )
 
                     if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                         ignoredMarkers.add( marker )
@@ -2342,7 +2342,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
@@ -3311,7 +3311,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie','v='): # Just ignore these lines
@@ -4176,7 +4176,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -4683,7 +4683,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -5354,7 +5354,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.toOSIS: {} {}:{} {}={}{}".format( BBB, C, V, marker, repr(text), " + extras" if extras else "" ) )
 
                 if haveOpenList and marker not in ('li1','li2','li3','li4', 'ili1','ili2','ili3','ili4',):
@@ -6020,7 +6020,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6220,7 +6220,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6814,7 +6814,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, marker, text )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, " ", haveOpenIntro, haveOpenOutline, haveOpenMajorSection, haveOpenSection, haveOpenSubsection, needChapterEID, haveOpenParagraph, haveOpenVsID, haveOpenLG, haveOpenL )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, toSwordGlobals['idStack'] )
@@ -7267,7 +7267,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7441,7 +7441,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7974,7 +7974,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9195,7 +9195,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9637,7 +9637,7 @@ class BibleWriter( InternalBible ):
                         if marker in USFM_PRECHAPTER_MARKERS:
                             if self.doExtraChecking:
                                 assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                            V = str( int(V) + 1 )
+                            if C == '-1': V = str( int(V) + 1 )
 
                         if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                             ignoredMarkers.add( marker )
diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 7b5c688..bfa839a 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -257,7 +257,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
             if marker in USFM_PRECHAPTER_MARKERS:
                 if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C == '-1': V = str( int(V) + 1 )
 
             if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                 ignoredMarkers.add( marker )
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 3a0f245..082071b 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -937,7 +937,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
             if marker in USFM_PRECHAPTER_MARKERS:
                 if self.doExtraChecking:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C == '-1': V = str( int(V) + 1 )
             markerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
             # if BBB=='RUT': vPrint( 'Quiet', DEBUGGING_THIS_MODULE,
             #     f"{BBB} {C}:{V} {marker}({originalMarker})='{text}'{'+extras' if extras else ''} mCT={getMarkerContentType} hOP={haveOpenPara} pJO={paraJustOpened} hOV={haveOpenVerse} nCV={needToCloseVerse}" )
-- 
2.43.0


From 92359f167e527127dfd8713e58b8c6650102dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 033/140] fix: YETBible put the heading before verse 1 into the
 previous chapter

---
 BibleOrgSys/Formats/YETBible.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 2b9be33..60b9729 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -389,18 +389,6 @@ class YETBible( Bible ):
             thisBook.objectTypeString = 'YET'
             lastChapterNumberString = None
             for (chapterNumberString,verseNumberString), verseString in bkData.items():
-                # Insert headings (can only occur before verses)
-                if (BBB,chapterNumberString,verseNumberString) in headingDict:
-                    heading, refList = headingDict[(BBB,chapterNumberString,verseNumberString)]
-                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 's', BBB, chapterNumberString, verseNumberString, repr(heading), refList )
-                    thisBook.addLine( 's', heading )
-                    if refList:
-                        refString = ""
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 's', BBB, chapterNumberString, verseNumberString, repr(heading), refList )
-                        for ref in refList:
-                            refString += ('; ' if refString else '') + ref
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 's', BBB, chapterNumberString, verseNumberString, repr(heading), refList, repr(refString) )
-                        thisBook.addLine( 'r', '('+refString+')' )
                 # Insert footnotes and cross-references
                 while '\\ff' in verseString:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "footnote", repr(verseString) )
@@ -426,6 +414,18 @@ class YETBible( Bible ):
                 if chapterNumberString != lastChapterNumberString:
                     thisBook.addLine( 'c', chapterNumberString )
                     lastChapterNumberString = chapterNumberString
+                # Insert headings (can only occur before verses)
+                if (BBB,chapterNumberString,verseNumberString) in headingDict:
+                    heading, refList = headingDict[(BBB,chapterNumberString,verseNumberString)]
+                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 's', BBB, chapterNumberString, verseNumberString, repr(heading), refList )
+                    thisBook.addLine( 's', heading )
+                    if refList:
+                        refString = ""
+                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 's', BBB, chapterNumberString, verseNumberString, repr(heading), refList )
+                        for ref in refList:
+                            refString += ('; ' if refString else '') + ref
+                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 's', BBB, chapterNumberString, verseNumberString, repr(heading), refList, repr(refString) )
+                        thisBook.addLine( 'r', '('+refString+')' )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumberString, verseNumberString, repr(verseString) )
                 if verseString.startswith( '\\\\' ):  # It's an initial paragraph marker
                     if verseString[3]==' ': marker, verseString = verseString[2], verseString[4:]
-- 
2.43.0


From f7778c010fe28bbc9e0b7cdb2d42f4e632a3ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 034/140] fix: YETBible repeated the lines after the first
 paragraph break inside a verse

---
 BibleOrgSys/Formats/YETBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 60b9729..9ad2a48 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -250,7 +250,7 @@ class YETBible( Bible ):
             # Paragraph markers (marked now with double backslash)
             verseString = verseString.replace( '@^', '\\\\p ' )
             verseString = verseString.replace( '@0', '\\\\m ' )
-            verseString = verseString.replace( '@1', '\\\\q1 ' ).replace( '@2', '\\\\q2 ' ).replace( '@3', '\\\\q3 ' ).replace( '@4', '\\q4 ' )
+            verseString = verseString.replace( '@1', '\\\\q1 ' ).replace( '@2', '\\\\q2 ' ).replace( '@3', '\\\\q3 ' ).replace( '@4', '\\\\q4 ' )
             verseString = verseString.replace( '@8', '\\\\m ' )
             # Character markers (marked now with single backslash)
             verseString = verseString.replace( '@6', '\\wj ' ).replace( '@5', '\\wj*' )
@@ -437,7 +437,7 @@ class YETBible( Bible ):
                 bits = verseString.split( '\\\\' ) # Split on paragraph markers (but not character markers)
                 for j,bit in enumerate(bits):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "loop", j, repr(bit), repr(verseString) )
-                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + verseString.rstrip() )
+                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + bit.rstrip() )
                     else:
                         if bit[1]==' ': marker, bit = bit[0], bit[2:]
                         elif bit[2]==' ': marker, bit = bit[0:2], bit[3:]
-- 
2.43.0


From 6f052dfcdbda344c05f148f06e3eb47ab2eed396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 035/140] fix: YETBibleFileCheck cut too much off the name of a
 file in a subfolder

---
 BibleOrgSys/Formats/YETBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 9ad2a48..e9bbc14 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -194,7 +194,7 @@ def YETBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "YETBibleFileCheck foundProjects", numFound, foundProjects )
         if numFound == 1 and (autoLoad or autoLoadBooks):
             if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
-            uB = YETBible( foundProjects[0][0], foundProjects[0][1][:-9] ) # Remove the end of the actual filename "_utf8.txt"
+            uB = YETBible( foundProjects[0][0], foundProjects[0][1][:-4] ) # Remove the end of the actual filename ".yet"
             if autoLoadBooks: uB.load() # Load and process the file
             return uB
         return numFound
-- 
2.43.0


From ad64075388b13f6fb5e7a354bb9ec05d4887a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 036/140] fix: CSVBible could not be created without an
 abbreviation

---
 BibleOrgSys/Formats/CSVBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index efb2691..c553ed8 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -238,10 +238,10 @@ class CSVBible( Bible ):
                                         f'{self.givenName}.tsv',f'{self.givenName}.TSV',
                                         f'{self.givenName}.txt',f'{self.givenName}.TXT',
                                         self.givenName,
-                                        f'{self.abbreviation}.csv',f'{self.abbreviation}.CSV', f'{self.abbreviation.lower()}.csv',f'{self.abbreviation.lower()}.CSV',
+                                        *((f'{self.abbreviation}.csv',f'{self.abbreviation}.CSV', f'{self.abbreviation.lower()}.csv',f'{self.abbreviation.lower()}.CSV',
                                         f'{self.abbreviation}.tsv',f'{self.abbreviation}.TSV', f'{self.abbreviation.lower()}.tsv',f'{self.abbreviation.lower()}.TSV',
                                         f'{self.abbreviation}.txt',f'{self.abbreviation}.TXT', f'{self.abbreviation.lower()}.txt',f'{self.abbreviation.lower()}.TXT',
-                                        self.abbreviation,):
+                                        self.abbreviation) if self.abbreviation else ()),):
                 self.sourceFilepath =  os.path.join( self.sourceFolder, self.sourceFilename )
                 # Do a preliminary check on the readability of our file
                 if os.access( self.sourceFilepath, os.R_OK ): # great -- found it
-- 
2.43.0


From 2cd5f4ad5f4b0d3b0ebb19c80368d10aa545f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 037/140] fix: CSVBible skipped every line of a file with book
 numbers

---
 BibleOrgSys/Formats/CSVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index c553ed8..b9a691b 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -338,7 +338,7 @@ class CSVBible( Bible ):
                     BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromText( booknameString )
                     if BBB:
                         bookNumber = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
-                if lastBookNumber==-1 and not BBB:
+                if lastBookNumber==-1 and bookNumber==-1:
                     dPrint( 'Never', DEBUGGING_THIS_MODULE, f"Skipping the rest of introductory line because no BBB yet: {lineCount}: '{line}'" )
                     continue
 
-- 
2.43.0


From 20f2119cf2c3decb6610cf440ee47085fd3281ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 038/140] fix: VPLBible raised a NameError at the first verse
 of types 1 to 3

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index d53e9b2..bc66125 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -754,7 +754,7 @@ class VPLBible( Bible ):
                             thisBook.addLine( 'p', '' )
                             verseText = verseText[1:].lstrip()
 
-                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, vText ) )
+                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, verseText ) )
                         thisBook.addLine( 'v', f'{verseNumberString} {verseText}' )
                         lastVerseText = verseText
                         lastVerseNumber = verseNumber
-- 
2.43.0


From ce75fe796c546bef5bc9c5031830d92926582522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 039/140] fix: VPLBible raised an AttributeError when no
 encoding was given

---
 BibleOrgSys/Formats/VPLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index bc66125..9020b85 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -350,7 +350,7 @@ class VPLBible( Bible ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
                 if not line: continue # Just discard blank lines
                 if lineNumber == 1:
-                    if self.encoding.lower()=='utf-8' and line[0]==BibleOrgSysGlobals.BOM:
+                    if line[:1] == BibleOrgSysGlobals.BOM:
                         logging.info( "      VPLBible.load: Detected Unicode Byte Order Marker (BOM)" )
                         line = line[1:] # Remove the Unicode Byte Order Marker (BOM)
                     # Try to identify the VPL type
@@ -392,7 +392,7 @@ class VPLBible( Bible ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
                 #if not line: continue # Just discard blank lines # NO, needed for vplType 5
                 if lineNumber == 1:
-                    if self.encoding.lower()=='utf-8' and line[0]==BibleOrgSysGlobals.BOM:
+                    if line[:1] == BibleOrgSysGlobals.BOM:
                         logging.info( "      VPLBible.load: Detected Unicode Byte Order Marker (BOM)" )
                         line = line[1:] # Remove the Unicode Byte Order Marker (BOM)
 
-- 
2.43.0


From 8fc3f36f3537713ab4fe928a000b89e1922d15a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 040/140] fix: ForgeForSwordSearcherBible took the verses after
 an empty metadata field as its contents

---
 BibleOrgSys/Formats/ForgeForSwordSearcherBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
index a76fb92..ed6028b 100755
--- a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
+++ b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
@@ -318,8 +318,8 @@ class ForgeForSwordSearcherBible( Bible ):
 
                 # Process the main segment
                 if line.startswith( '$$ ' ):
-                    if metadataName and metadataContents:
-                        settingsDict[metadataName] = metadataContents
+                    if metadataName:
+                        if metadataContents: settingsDict[metadataName] = metadataContents
                         metadataName = None
                     pointer = line[3:]
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "pointer", repr(pointer) )
-- 
2.43.0


From c77298b752048392005f45402f4fb606ea5ac2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 041/140] fix: OpenSongXMLBible added the word None after an
 italic field at the end of a verse

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index bfa839a..3c8f648 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -536,7 +536,7 @@ class OpenSongXMLBible( Bible ):
                     BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sub2location, 'ks03' )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sub2location, 'ks05' )
                     if subelement.tag == 'i':
-                        vText += '\\it {}\\it*{}'.format( subelement.text, subelement.tail )
+                        vText += '\\it {}\\it*{}'.format( subelement.text or '', subelement.tail or '' )
                     else: logging.error( "Expected to find 'i' but got {!r}".format( subelement.tag ) )
                 vText += element.tail if element.tail else ''
                 if not vText:
-- 
2.43.0


From 4699ac40c73660d1685fe1e4f595c56723137425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 042/140] fix: OpenSongXMLBible took the white space after a
 verse as a line of poetry

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 3c8f648..210c4e4 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -538,7 +538,7 @@ class OpenSongXMLBible( Bible ):
                     if subelement.tag == 'i':
                         vText += '\\it {}\\it*{}'.format( subelement.text or '', subelement.tail or '' )
                     else: logging.error( "Expected to find 'i' but got {!r}".format( subelement.tag ) )
-                vText += element.tail if element.tail else ''
+                vText += element.tail if element.tail and element.tail.strip() else ''
                 if not vText:
                     logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'vText1', vText )
-- 
2.43.0


From 46d192d26824db719fbe693bedd7b23446445e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 043/140] fix: VPLBible added a Psalm title to the chapter
 before it

---
 BibleOrgSys/Formats/VPLBible.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 9020b85..a5fc791 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -512,6 +512,7 @@ class VPLBible( Bible ):
                     #   [square-brackets] are for Italicized words
                     #   <angle-brackets> are for the Words of Christ in Red
                     #   «chevrons»  are for the Titles in the Book  of Psalms.
+                    psalmTitle = None
                     verseText = verseText.replace( '[', '\\add ' ).replace( ']', '\\add*' ) \
                         .replace( '<', '\\wj ' ).replace( '>', '\\wj*' )
                     if verseText and verseText[0]=='«':
@@ -519,7 +520,7 @@ class VPLBible( Bible ):
                         if BBB=='PSA' and verseNumberString=='1': # Psalm title
                             vBits = verseText[1:].split( '»' )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "vBits", vBits )
-                            thisBook.addLine( 'd', vBits[0] ) # Psalm title
+                            psalmTitle = vBits[0] # We add it below (once we have the right book and chapter)
                             verseText = vBits[1].lstrip()
 
                     # Handle the verse info
@@ -749,6 +750,8 @@ class VPLBible( Bible ):
                             else:
                                 logging.warning( _("Ignored duplicated {} verse number in {} {} {} {}:{}").format( verseNumber, self.givenName, BBB, bookCodeText, chapterNumberString, verseNumberString ) )
 
+                        if vplType==1 and psalmTitle: thisBook.addLine( 'd', psalmTitle )
+
                         # Check for paragraph markers
                         if verseText and verseText[0]=='¶':
                             thisBook.addLine( 'p', '' )
-- 
2.43.0


From 5c8c37304e075be2fe25df9fcc4f653b764ddcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 044/140] fix: VPLBible could not read files of types 2 and 3
 with a blank line

---
 BibleOrgSys/Formats/VPLBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index a5fc791..7fd3dcc 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -430,7 +430,7 @@ class VPLBible( Bible ):
                         string = line[17:].strip()
                         if string and string != 'Not available': settingsDict['Copyright.long'] = string
                         continue
-                    elif line[0]=='#':
+                    elif line.startswith( '#' ):
                         logging.warning( "VPLBible.load {} is skipping unknown line: {}".format( vplType, line ) )
                         continue # Just discard comment lines
                 #elif vplType == 4:
@@ -463,6 +463,7 @@ class VPLBible( Bible ):
                         #continue # Just discard comment lines
 
                 # Process the main segment
+                if not line and vplType != 5: continue # Just discard blank lines
                 if vplType == 1:
                     bits = line.split( ' ', 2 )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.givenName, BBB, bits )
-- 
2.43.0


From 3c770f9c3f5a597d4503ec400cd199ee37d2c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 045/140] fix: VPLBibleFileCheck did not recognise files with a
 byte-order mark

---
 BibleOrgSys/Formats/VPLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 7fd3dcc..41124f0 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -181,9 +181,9 @@ def VPLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
                 firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, givenFolderName, numLines=4 )
                 dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Check 1: {firstLines=}" )
                 if firstLines is None: continue # seems we couldn't decode the file
-                if firstLines and firstLines[0][0]==BibleOrgSysGlobals.BOM:
+                if firstLines and firstLines[0].startswith( BibleOrgSysGlobals.BOM ):
                     logging.info( "VPLBibleFileCheck: Detected Unicode Byte Order Marker (BOM) in {}".format( thisFilename ) )
-                    firstLines = firstLines[0][1:] # Remove the Unicode Byte Order Marker (BOM)
+                    firstLines[0] = firstLines[0][1:] # Remove the Unicode Byte Order Marker (BOM)
                 for line in firstLines:
                     # Try to identify the VPL type
                     match = re.search( '^(\\w{2,5}?)\\s(\\d{1,3})[:\\.](\\d{1,3})\\s', line )
-- 
2.43.0


From f408cee8de87592885be8eceac50420380f48a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 046/140] fix: ZefaniaXMLBible put the text after a note before
 its verse

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 5487bf8..9c23231 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -625,7 +625,7 @@ class ZefaniaXMLBible( Bible ):
                         if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ZefaniaXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
                         nTail = nTail.replace( '\n', ' ' )
-                    thisBook.addLine( 'v~', nTail )
+                    vText = (vText or '') + nTail
                 for sub2element in subelement:
                     if sub2element.tag == STYLE_TAG:
                         sub2location = "style in " + sublocation
-- 
2.43.0


From a837265531f88e5e69108ac05bf898bba2e1b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 047/140] fix: ZefaniaXMLBible repeated the verse number or
 failed for text after a line break or a style at the start of a verse

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 28 +++++++++++---------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 9c23231..362ee1d 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -599,8 +599,8 @@ class ZefaniaXMLBible( Bible ):
         if BibleOrgSysGlobals.debugFlag: assert verseNumber
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
-        vText = verse.text
-        if vText: vText = vText.strip('\n')
+        vText = verse.text.strip('\n') if verse.text else ''
+        lineMarker, lineStart = 'v', verseNumber + ' ' # So far
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
@@ -625,7 +625,7 @@ class ZefaniaXMLBible( Bible ):
                         if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ZefaniaXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
                         nTail = nTail.replace( '\n', ' ' )
-                    vText = (vText or '') + nTail
+                    vText += nTail
                 for sub2element in subelement:
                     if sub2element.tag == STYLE_TAG:
                         sub2location = "style in " + sublocation
@@ -704,17 +704,13 @@ class ZefaniaXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert art == 'x-nl'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, verseNumber )
                 #assert vText
-                if vText:
-                    if '\n' in vText:
-                        logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_a: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
-                        vText = vText.replace( '\n', ' ' )
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText )
-                    vText = ''
-                breakText = subelement.tail.strip('\n') if subelement.tail else ''
-                if '\n' in breakText:
-                    logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse: newline in breakText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, breakText ) )
-                    breakText = breakText.replace( '\n', ' ' )
-                thisBook.addLine( 'm', breakText )
+                if '\n' in vText:
+                    logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_a: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
+                    vText = vText.replace( '\n', ' ' )
+                thisBook.addLine( lineMarker, lineStart + vText )
+                # The rest of the verse goes on a new line
+                lineMarker, lineStart = 'm', ''
+                vText = subelement.tail.strip('\n') if subelement.tail else ''
 
             elif subelement.tag == DIV_TAG:
                 sublocation = "div break in " + location
@@ -747,11 +743,11 @@ class ZefaniaXMLBible( Bible ):
 
             else: logging.error( "Expected to find NOTE or STYLE or BREAK or DIV but got {!r} in {}".format( subelement.tag, location ) )
 
-        if vText: # This is the main text of the verse (follows the verse milestone)
+        if vText or lineMarker != 'v': # This is the main text of the verse (follows the verse milestone)
             if '\n' in vText:
                 logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_b: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText )
+            thisBook.addLine( lineMarker, lineStart + vText )
     # end of ZefaniaXMLBible.__validateAndExtractVerse
 # end of ZefaniaXMLBible class
 
-- 
2.43.0


From c07a870c9f1d30b7810b7e611503d7a18d9aa6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 048/140] fix: HaggaiXMLBible failed for text after a line
 break inside a verse

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index b9e4cf3..b1a804a 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -608,8 +608,8 @@ class HaggaiXMLBible( Bible ):
         if BibleOrgSysGlobals.debugFlag: assert verseNumber
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
-        vText = '' if verse.text is None else verse.text
-        if vText: vText = vText.strip()
+        vText = '' if verse.text is None else verse.text.strip('\n')
+        lineMarker, lineStart = 'v', verseNumber + ' ' # So far
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
@@ -699,19 +699,17 @@ class HaggaiXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert art == 'x-nl'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, verseNumber )
                 #assert vText
-                if vText:
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
-                    vText = ''
-                thisBook.addLine( 'm', subelement.tail.strip() if subelement.tail else '' )
-                #bTail = subelement.tail
-                #if bTail: vText = bTail.strip()
+                thisBook.addLine( lineMarker, lineStart + vText.replace( '\n', ' ' ) )
+                # The rest of the verse goes on a new line
+                lineMarker, lineStart = 'm', ''
+                vText = subelement.tail.strip('\n') if subelement.tail else ''
             else: logging.error( "Expected to find NOTE or STYLE but got {!r} in {}".format( subelement.tag, location ) )
 
-        if vText: # This is the main text of the verse (follows the verse milestone)
+        if vText or lineMarker != 'v': # This is the main text of the verse (follows the verse milestone)
             if '\n' in vText:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
+            thisBook.addLine( lineMarker, lineStart + vText )
     # end of HaggaiXMLBible.__validateAndExtractVerse
 # end of HaggaiXMLBible class
 
-- 
2.43.0


From 0213c2fb489df68e7b42c411aaf0bec08a8b12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 049/140] fix: HaggaiXMLBible joined the words before and after
 a style

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index b1a804a..6f58bdf 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -657,7 +657,7 @@ class HaggaiXMLBible( Bible ):
                         if BibleOrgSysGlobals.debugFlag: assert sText
                         if SFM: vText += SFM+' ' + sText + SFM+'*'
                         else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                        if sTail: vText += sTail.strip()
+                        if sTail: vText += sTail.strip('\n')
                     else: logging.error( "Expected to find {} but got {!r} in {}".format( HaggaiXMLBible.styleTag, sub2element.tag, sublocation ) )
 
             elif subelement.tag == HaggaiXMLBible.styleTag:
@@ -685,7 +685,7 @@ class HaggaiXMLBible( Bible ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, sublocation )
                 if SFM: vText += SFM+' ' + sText + SFM+'*'
                 else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                if sTail: vText += sTail.strip()
+                if sTail: vText += sTail.strip('\n')
 
             elif subelement.tag == HaggaiXMLBible.breakTag:
                 sublocation = "line break in " + location
-- 
2.43.0


From 5a960f3596a4b4d32c6db32a4d9b2cfd1836ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 050/140] fix: ForgeForSwordSearcherBible could not read book
 names with a space like 1 Samuel

---
 BibleOrgSys/Formats/ForgeForSwordSearcherBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
index ed6028b..ae39f48 100755
--- a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
+++ b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
@@ -336,7 +336,7 @@ class ForgeForSwordSearcherBible( Bible ):
                                         .replace( '1 Tim','1Tim' ).replace( '2 Tim','2Tim' ) \
                                         .replace( '1 Pet','1Pet' ).replace( '2 Pet','2Pet' ) \
                                         .replace( '1 J','1J' ).replace( '2 J','2J' ).replace( '3 J','3J' )
-                        B_CV_Bits = pointer.split( ' ', 1 )
+                        B_CV_Bits = pointer.rsplit( ' ', 1 )
                         if len(B_CV_Bits) == 2 and ':' in B_CV_Bits[1]:
                             bookCode, CVString = B_CV_Bits
                             chapterNumberString, verseNumberString = CVString.split( ':' )
-- 
2.43.0


From 32eeda1f9650f642ae1abf8f1766653e5ae3dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 051/140] fix: ZefaniaXMLBible lost the text after a DIV inside
 a verse

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 362ee1d..885f33c 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -716,7 +716,6 @@ class ZefaniaXMLBible( Bible ):
                 sublocation = "div break in " + location
                 BibleOrgSysGlobals.checkXMLNoText( subelement, sublocation, 'ld46' )
                 BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation, 'kx10' )
-                BibleOrgSysGlobals.checkXMLNoTail( subelement, sublocation, 'las9' )
                 for sub2element in subelement:
                     if sub2element.tag == 'NOTE':
                         sub2location = "NOTE in " + sublocation
@@ -726,6 +725,7 @@ class ZefaniaXMLBible( Bible ):
                         noteText = sub2element.text.strip('\n') if sub2element.text else ''
                         vText = f'{vText}\\f {noteText}\\f*'
                     else: logging.error( "Expected to find 'NOTE' but got {!r} in {}".format( sub2element.tag, sublocation ) )
+                if subelement.tail: vText += subelement.tail.strip('\n')
 
             elif subelement.tag == GR_TAG:
                 sublocation = "gr in " + location
-- 
2.43.0


From 22b95f3fde82c35ce5a47c233678b40a4b1f7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 052/140] fix: SimpleVersesKey used the wrong groups for lists
 of 6, 8 and 9 verses

---
 BibleOrgSys/Reference/VerseReferences.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 7ca2e7b..b9c59e3 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -605,7 +605,7 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -656,9 +656,9 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -685,10 +685,10 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
-            V9, S9 = match.group(18), match.group(19) if match.group(19) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
+            V9, S9 = match.group(19), match.group(20) if match.group(20) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
-- 
2.43.0


From 10c367659bac60af39ae39fd116ac8bbaa647235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 053/140] fix: SimpleVerseKeys with different verse indexes
 were equal

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index b9c59e3..3f33c71 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -248,7 +248,7 @@ class SimpleVerseKey():
     def __eq__( self, other ):
         #if type( other ) is type( self ): return self.__dict__ == other.__dict__
         if type( other ) is type( self ):
-            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S
+            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S and self.I==other.I
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
-- 
2.43.0


From 4fcf059e15a8d967561d1a9fdef5cfb35bbdd139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 054/140] fix: verse keys could not be parsed for the book
 codes A2J, A2Z, H2C, P4D

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 3f33c71..6c7ae9b 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -109,7 +109,7 @@ DEBUGGING_THIS_MODULE = False
 #
 #       All metacharacters (which must be escaped to search for literals): . ^ $ * + ? { } [ ] \ | ( )
 #
-BBB_RE = '([A-PR-XZ][A-EG-VX-Z1][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
+BBB_RE = '([A-PR-XZ][A-EG-VX-Z124][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
 C_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Chapter numbers 1..199 (doesn't handle chapters -1 or 0)
 V_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Verse numbers 1..199 (doesn't handle verse 0)
 S_RE = '!([a-d]?)'
-- 
2.43.0


From 6927338254359456563d712b975ceb60d9b25af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 055/140] fix: VerseRangeKey could not handle a range within
 one verse

---
 BibleOrgSys/Reference/VerseReferences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 6c7ae9b..a7b0d59 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -889,9 +889,9 @@ class VerseRangeKey():
             V = V1
             if BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Expanding range from {} to {}…".format( self.rangeStart.getShortText(), self.rangeEnd.getShortText() ) )
-            assert int(V2)>int(V1) or S2!=S1
+            assert int(V2)>int(V1) or ( V2==V1 and S2!=S1 )
             while True:
-                V = str( int(V) + 1 )
+                if V2!=V1: V = str( int(V) + 1 ) # otherwise it's two parts of the same verse
                 if V==V2:
                     self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
                     break
-- 
2.43.0


From 16bca3ec40c68a6a45d145860050627276e3ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 056/140] fix: VerseRangeKey lost the suffix of the first verse
 of a range over chapters

---
 BibleOrgSys/Reference/VerseReferences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index a7b0d59..0df3c12 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -917,7 +917,8 @@ class VerseRangeKey():
                 if C==C2 and V==V2:
                     self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
                     break
-                self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
+                self.verseKeysList.append( SimpleVerseKey( BBB, C, V, S ) )
+                S = '' # Only the first verse has the first suffix
                 V = str( int(V) + 1 )
                 if int(V)>222:
                     C,V = str( int(C) + 1 ), '1'
-- 
2.43.0


From 3d6ff04dc3414fcbdba33ad41d56b755ee651fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 057/140] fix: a VerseRangeKey for a chapter had no verses and
 a text which could not be parsed

---
 BibleOrgSys/Reference/VerseReferences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 0df3c12..c5bb71f 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -837,6 +837,7 @@ class VerseRangeKey():
 
 
     def getVerseKeyText( self ):
+        if self.keyType == 'C': return '{}_{}'.format( self.rangeStart.getBBB(), self.rangeStart.getChapterNumStr() )
         resultStr = self.rangeStart.getVerseKeyText()
         BBB, C, V, S = self.rangeEnd.getBCVS()
         if BBB == self.rangeStart.getBBB():
@@ -935,6 +936,7 @@ class VerseRangeKey():
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.rangeStart = SimpleVerseKey( BBB, C, '1' )
             self.rangeEnd = SimpleVerseKey( BBB, C, '999' )
+            self.verseKeysList = [SimpleVerseKey( BBB, C, str(v) ) for v in range(1, 222+1)] # We don't know the versification (as for ranges above)
             self.keyType = 'C'
             return True
         # else:
-- 
2.43.0


From 74ddbee8e4b03cfb36751cdf28b79a8e485f7661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 058/140] fix: FlexibleVersesKey.getVerseKeyText gave text
 which could not be parsed again

---
 BibleOrgSys/Reference/VerseReferences.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index c5bb71f..1e18701 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -1075,15 +1075,11 @@ class FlexibleVersesKey():
 
 
     def getVerseKeyText( self ):
-        if self.keyType=='V-V,V':
-            vRange, vSingle = self.verseKeyObjectList[0], self.verseKeyObjectList[1]
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here", vRange, vSingle, "'{},{}'".format( vRange.getVerseKeyText(), vSingle.getVerseNumber() ) )
-            S = vSingle.getVerseSuffix()
-            return '{},{}{}{}'.format( vRange.getVerseKeyText(), vSingle.getVerseNumber(), '!' if S else '', S )
         resultText = ''
         for verseKeyObject in self.verseKeyObjectList:
-            if resultText: resultText += ', '
-            resultText += verseKeyObject.getVerseKeyText()
+            if resultText: # All the parts are in the same chapter
+                resultText += ',' + verseKeyObject.getVerseKeyText().split( ':', 1 )[1]
+            else: resultText = verseKeyObject.getVerseKeyText()
         return resultText
 
 
-- 
2.43.0


From 545cf37912b5ae29c854cc99c377d26d72a75e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 059/140] fix: AttributeError for an unknown book code in a
 verses or range key

---
 BibleOrgSys/Reference/VerseReferences.py | 28 ++++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 1e18701..7ffa7c0 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -513,7 +513,7 @@ class SimpleVersesKey():
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2)]
@@ -528,7 +528,7 @@ class SimpleVersesKey():
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "SDADQ", referenceString )
@@ -546,7 +546,7 @@ class SimpleVersesKey():
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             C3, V3, S3 = match.group(8), match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2), SimpleVerseKey(BBB,C3,V3,S3)]
@@ -562,7 +562,7 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "CCVSD", referenceString )
@@ -584,7 +584,7 @@ class SimpleVersesKey():
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -607,7 +607,7 @@ class SimpleVersesKey():
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
             V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -632,7 +632,7 @@ class SimpleVersesKey():
             V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -660,7 +660,7 @@ class SimpleVersesKey():
             V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
             V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -690,7 +690,7 @@ class SimpleVersesKey():
             V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             V9, S9 = match.group(19), match.group(20) if match.group(20) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -745,7 +745,7 @@ class SimpleVersesKey():
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2)]
@@ -760,7 +760,7 @@ class SimpleVersesKey():
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -776,7 +776,7 @@ class SimpleVersesKey():
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             C3, V3, S3 = match.group(8), match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.keyType = '3CV'
@@ -931,7 +931,7 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             BBB, C = match.group(1), match.group(2)
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "VerseRangeKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.rangeStart = SimpleVerseKey( BBB, C, '1' )
@@ -1009,7 +1009,7 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             bk, C = match.group(1), match.group(2)
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "VerseRangeKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.rangeStart = SimpleVerseKey( BBB, C, '1' )
-- 
2.43.0


From 00a9a03ae3c81626fce68ad10f7a119c33ef668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 060/140] fix: a verse suffix was also given to the next
 reference in a Bible reference list

---
 BibleOrgSys/Reference/BibleReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 887de88..7943022 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -958,7 +958,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     V, S = '', ''
                 elif V and (char in self.punctuationDict['chapterSeparator'] or char in self.punctuationDict['bookSeparator']):
                     saveReference( BBB, C, V, S, self.referenceList )
-                    V = ''
+                    V, S = '', ''
                     if self.punctuationDict['chapterSeparator'] == self.punctuationDict['bookSeparator']:
                         temp, spaceCount = '', 0
                         status = 4 # We don't know what to expect next
-- 
2.43.0


From 247455739e265e49dca8fb7adf2d47a79f4ae3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 061/140] fix: BibleSingleReferences could not read a later
 book name with a space like 1 Cor

---
 BibleOrgSys/Reference/BibleReferences.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 7943022..07febc3 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -598,15 +598,17 @@ class BibleSingleReferences( BibleReferenceBase ):
                     if char in self.punctuationDict['chapterVerseSeparator'] and temp and temp.isdigit(): # Assume it's a follow on chapter number
                         C = temp
                         status = 3 # Now get the verse number
-                    elif char in self.punctuationDict['bookChapterSeparator']:
-                        bookNameOrAbbreviation = temp
-                        BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                        if BBB is None:
-                            logging.error( _("Invalid {!r} bookname in Bible reference {!r}").format( bookNameOrAbbreviation, referenceString ) )
-                            haveErrors = True
-                        C, V, S = '', '', ''
-                        spaceCount = 1 if char==' ' else 0
-                        status = 2 # Start getting the chapter number
+                    elif char in self.punctuationDict['bookChapterSeparator']: # but this is often a space which also occurs in things like 1 Thess
+                        BBB = self.getBBBFromText( temp )
+                        if BBB is not None: # Must have found a bookname
+                            bookNameOrAbbreviation = temp
+                            C, V, S = '', '', ''
+                            spaceCount = 1 if char==' ' else 0
+                            status = 2 # Start getting the chapter number
+                        else: # Not a valid bookname
+                            if char != ' ':
+                                logging.error( _("Invalid {!r} bookname in Bible reference {!r}").format( temp, referenceString ) )
+                                haveErrors = True
                     else:
                         logging.error( _("Unexpected {!r} character in Bible reference {!r} when getting book name").format( char, referenceString ) )
                         haveErrors = True
-- 
2.43.0


From 049ec240b21aa3fb49aab7a4f543696cba348b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 062/140] fix: BibleReferenceList refused a book after a verse
 of a single-chapter book

---
 BibleOrgSys/Reference/BibleReferences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 07febc3..ba0023a 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -931,7 +931,7 @@ class BibleReferenceList( BibleReferenceBase ):
                         status = 3 # Get the next verse number
                     elif char in self.punctuationDict['bookSeparator']:
                         saveReference( BBB, C, V, S, self.referenceList )
-                        BBB, C = None, ''
+                        bookNameOrAbbreviation, BBB, C = '', None, ''
                         status = 0
                     elif char in self.punctuationDict['verseBridgeCharacter']:
                         saveStartReference( BBB, C, V, S )
@@ -1138,7 +1138,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     V = C
                     C = '1'
                     saveReferenceRange( startReferenceTuple, BBB, C, V, S, self.referenceList )
-                    status, BBB, C, V, S = 0, None, '', '', ''
+                    status, bookNameOrAbbreviation, BBB, C, V, S = 0, '', None, '', '', ''
                 elif C and (char in self.punctuationDict['chapterSeparator'] or char in self.punctuationDict['bookSeparator']):
                     saveReferenceRange( startReferenceTuple, BBB, C, V, S, self.referenceList )
                     C, V, S = '', '', ''
-- 
2.43.0


From 22b0c3db57eb7723621b4a01f090f7955b71e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 063/140] fix: BibleReferenceList accepted ranges which run
 backwards

---
 BibleOrgSys/Reference/BibleReferences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index ba0023a..48a1d36 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -787,6 +787,8 @@ class BibleReferenceList( BibleReferenceBase ):
             rangeTuple = (startTuple, finishTuple,)
             verseList = self._BibleOrganisationalSystem.expandCVRange( startTuple, finishTuple, referenceString, self._BibleOrganisationalSystem )
             if verseList is not None: totalVerseList.extend( verseList )
+            elif startTuple[:3] != (BBB, C, V): # It's out of order, etc. (but parts of one verse, e.g., 5a-5b, are ok)
+                haveErrors = True
             if rangeTuple in refList:
                 logging.warning( _("saveReferenceRange: Reference range {} is repeated in Bible reference {!r}").format( rangeTuple, referenceString ) )
                 haveWarnings = True
-- 
2.43.0


From 433c9d686ea5d8dfb81245313d2a4a697a7d7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 064/140] fix: BibleReferenceList could not read a range to a
 book name with a space like 2 Cor

---
 BibleOrgSys/Reference/BibleReferences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 48a1d36..03ac83f 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1048,6 +1048,8 @@ class BibleReferenceList( BibleReferenceBase ):
                 elif char==' ' and BBB and C and X: # Assume it's the space after a book name
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here with", BBB, C, X )
                     BBB2 = self.getBBBFromText( X )
+                    if BBB2 is None and len(X)==1 and X.isdigit(): # It could be the space in something like 1 Cor
+                        continue
                     if BBB2 is None: # it seems that we couldn't discover the book name
                         logging.error( _("Unrecognized {!r} second bookname in Bible reference {!r}").format( X, referenceString ) )
                         BBB2 = "???"
-- 
2.43.0


From eaba3a2853bf13b3c222182b672e178e103896e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 065/140] fix: references to books like Song of Solomon could
 not be parsed because the first word is also a name

---
 BibleOrgSys/Reference/BibleReferences.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 03ac83f..1179231 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -240,7 +240,8 @@ class BibleSingleReference( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None \
+                    or adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't seem to have a valid (complete) bookname yet
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -452,7 +453,8 @@ class BibleSingleReferences( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None \
+                    or adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't seem to have a valid (complete) bookname yet
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -834,7 +836,8 @@ class BibleReferenceList( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None \
+                    or adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't seem to have a valid (complete) bookname yet
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
-- 
2.43.0


From ee8b8de34b69663931c9561bfdd4c7fd06f7ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 066/140] fix: BibleReferenceList refused the suffixes d, e and
 f at the end of a verse range

---
 BibleOrgSys/Reference/BibleReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 1179231..14a0be8 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -759,7 +759,7 @@ class BibleReferenceList( BibleReferenceBase ):
             Checks the reference info then saves it as a referenceTuple in the refList.
             """
             fnPrint( DEBUGGING_THIS_MODULE, f"BibleReferences.saveReferenceRange( startTuple={startTuple}, {BBB}, {C}:{V}, S={S}, refList={refList}" )
-            if V and not S and V[-1] in ('a','b','c',): # Remove the suffix
+            if V and not S and V[-1] in self.punctuationDict['allowedVerseSuffixes']: # Remove the suffix
                 S = V[-1]; V = V[:-1]
             if V=='3O': V = '30' # Fix a bug in byr-w.usfm
             if not BBB:
-- 
2.43.0


From 1d8c83c78b2c21cf6970f772c9cb0d86ba0b5407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 067/140] fix: BibleReferenceList lost a chapter after a
 semicolon at the end of a reference

---
 BibleOrgSys/Reference/BibleReferences.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 14a0be8..faafb62 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1201,9 +1201,17 @@ class BibleReferenceList( BibleReferenceBase ):
                 status = 9
         elif status==3: # Got a C but still getting the V hopefully
             if V: status = 4
-        elif status==4: # Must have ended with a separator character
-            logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
-            haveWarnings = True
+        elif status==4: # Must have ended with a separator character or with a chapter number
+            if not temp:
+                logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
+                haveWarnings = True
+            elif temp.isdigit() and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # it's presumably the verse number
+                saveReference( BBB, '1', temp, '', self.referenceList )
+            elif temp.isdigit(): # it must be specifying an entire chapter (like Gen. 3)
+                saveReference( BBB, temp, '', '', self.referenceList )
+            else:
+                logging.error( _("Unable to deduce chapter or book name from {!r} in Bible reference {!r}").format( temp, referenceString ) )
+                haveErrors = True
             status = 9
         elif status==5 and X: # Getting C or V range
             V = X
-- 
2.43.0


From 2ab6fafa1000b36e453886e125fe610a4e4e4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 068/140] fix: BibleSingleReferences added a reference without
 verse for a semicolon at the end

---
 BibleOrgSys/Reference/BibleReferences.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index faafb62..cdfd498 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -615,14 +615,22 @@ class BibleSingleReferences( BibleReferenceBase ):
                         logging.error( _("Unexpected {!r} character in Bible reference {!r} when getting book name").format( char, referenceString ) )
                         haveErrors = True
                 continue
-        if status==3: # Got a C but still getting the V hopefully
+        if status==4: # Must have ended with a separator character or in the middle of a reference
+            if temp:
+                logging.error( _("Unable to deduce chapter or book name from {!r} in Bible reference {!r}").format( temp, referenceString ) )
+                haveErrors = True
+            else:
+                logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
+                haveWarnings = True
+                status = 9
+        elif status==3: # Got a C but still getting the V hopefully
             if V: status = 4
         if BBB is not None:
             if status==2 and C and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # Have a single chapter book and what we were given is presumably the verse number
                 V = C
                 C = '1'
                 status = 4
-            if status>=4 and not haveErrors:
+            if status==4 and not haveErrors:
                 saveReference( BBB, C, V, S, refList )
                 status = 9
         self.referenceList = refList
-- 
2.43.0


From eeeb9210471193bd9130932c0ae788f7a0a8668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 069/140] fix: BibleReferenceList refused a space after the
 separator following a single-chapter book

---
 BibleOrgSys/Reference/BibleReferences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index cdfd498..f2e4ac6 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -842,6 +842,8 @@ class BibleReferenceList( BibleReferenceBase ):
                     else:
                         bookNameOrAbbreviation += char
                         continue
+                elif char == ' ' and not bookNameOrAbbreviation and self.referenceList: # Just the space after a book separator
+                    continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
                     if BBB is None \
-- 
2.43.0


From 60a77d2797c69395edf1563383cb23312fc83d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 070/140] fix: parseOSISReferenceString failed for or lost the
 punctuation and names of a loaded Bible

---
 BibleOrgSys/Reference/BibleReferences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index f2e4ac6..8a6570b 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1284,6 +1284,7 @@ class BibleReferenceList( BibleReferenceBase ):
         Assumes that the book names and punctuation are OSIS standard.
         """
         # Set things up for OSIS system e.g., 1Cor.3.5-1Cor.3.9
+        savedPunctuationDict, savedGetBBBFromText = self.punctuationDict, self.getBBBFromText
         self.punctuationDict = {'booknameCase': 'M', 'booknameLength': 'M', 'spaceAllowedAfterBCS': 'N', 'punctuationAfterBookAbbreviation': '', 'chapterVerseSeparator': '.', 'bookChapterSeparator': '.', 'chapterSeparator': ';', 'bookBridgeCharacter': '-', 'chapterBridgeCharacter': '-', 'verseBridgeCharacter': '-', 'bookSeparator': ';', 'verseSeparator': ',', 'allowedVerseSuffixes': ''}
         OSISList = BibleOrgSysGlobals.loadedBibleBooksCodes.getAllOSISBooksCodes()
         #self.getBBBFromText = lambda s: BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation(s)
@@ -1293,8 +1294,7 @@ class BibleReferenceList( BibleReferenceBase ):
         sucessFlag, haveWarnings, resultList = self.parseReferenceString( referenceString )
 
         # Set things up again how they were
-        self.punctuationDict = self._BibleOrganisationalSystem.getPunctuationDict()
-        self.getBBBFromText = self._BibleOrganisationalSystem.getBBBFromText # This is the function that finds a book by name
+        self.punctuationDict, self.getBBBFromText = savedPunctuationDict, savedGetBBBFromText
 
         return sucessFlag, haveWarnings, resultList
     # end of BibleReferenceList.parseOSISReferenceString
-- 
2.43.0


From 12817e0f139461b59a92862a82964d8c1915d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 071/140] fix: findReplaceText failed when no
 replaceHistoryList was given

---
 BibleOrgSys/Formats/USFM2Bible.py | 1 +
 BibleOrgSys/Formats/USFMBible.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 8759e54..93cee54 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -306,6 +306,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
     # Go through all the given options
     if 'workName' not in optionsDict: optionsDict['workName'] = self.abbreviation if self.abbreviation else self.name
     if 'findHistoryList' not in optionsDict: optionsDict['findHistoryList'] = [] # Oldest first
+    if 'replaceHistoryList' not in optionsDict: optionsDict['replaceHistoryList'] = [] # Oldest first
     if 'wordMode' not in optionsDict: optionsDict['wordMode'] = 'Any' # or 'Whole' or 'EndsWord' or 'Begins' or 'EndsLine'
     #if 'caselessFlag' not in optionsDict: optionsDict['caselessFlag'] = True
     #if 'ignoreDiacriticsFlag' not in optionsDict: optionsDict['ignoreDiacriticsFlag'] = False
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 252d910..65c3af6 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -274,6 +274,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
     # Go through all the given options
     if 'workName' not in optionsDict: optionsDict['workName'] = self.abbreviation if self.abbreviation else self.name
     if 'findHistoryList' not in optionsDict: optionsDict['findHistoryList'] = [] # Oldest first
+    if 'replaceHistoryList' not in optionsDict: optionsDict['replaceHistoryList'] = [] # Oldest first
     if 'wordMode' not in optionsDict: optionsDict['wordMode'] = 'Any' # or 'Whole' or 'EndsWord' or 'Begins' or 'EndsLine'
     #if 'caselessFlag' not in optionsDict: optionsDict['caselessFlag'] = True
     #if 'ignoreDiacriticsFlag' not in optionsDict: optionsDict['ignoreDiacriticsFlag'] = False
-- 
2.43.0


From 903a3ca118ab3840ae80f261a21c713920a7f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 072/140] fix: findReplaceText failed when no context was
 wanted

---
 BibleOrgSys/Formats/USFM2Bible.py | 4 ++--
 BibleOrgSys/Formats/USFMBible.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 93cee54..becf360 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -412,7 +412,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         result = None
                         if not replaceAllFlag:
                             ref = BBB
-                            willBeText = contextBefore + regexReplacementText + contextAfter
+                            willBeText = (contextBefore or '') + regexReplacementText + (contextAfter or '')
                             result = confirmCallback( ref, contextBefore, regexFoundText, contextAfter, willBeText, resultDict['numReplaces']>0 )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "findReplaceText got", result )
                             assert result in 'YNASU'
@@ -460,7 +460,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         result = None
                         if not replaceAllFlag:
                             ref = BBB
-                            willBeText = contextBefore + ourReplaceText + contextAfter
+                            willBeText = (contextBefore or '') + ourReplaceText + (contextAfter or '')
                             result = confirmCallback( ref, contextBefore, ourFindText, contextAfter, willBeText, resultDict['numReplaces']>0 )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "findReplaceText got", result )
                             assert result in 'YNASU'
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 65c3af6..31a7ce0 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -380,7 +380,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         result = None
                         if not replaceAllFlag:
                             ref = BBB
-                            willBeText = contextBefore + regexReplacementText + contextAfter
+                            willBeText = (contextBefore or '') + regexReplacementText + (contextAfter or '')
                             result = confirmCallback( ref, contextBefore, regexFoundText, contextAfter, willBeText, resultDict['numReplaces']>0 )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "findReplaceText got", result )
                             assert result in 'YNASU'
@@ -428,7 +428,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         result = None
                         if not replaceAllFlag:
                             ref = BBB
-                            willBeText = contextBefore + ourReplaceText + contextAfter
+                            willBeText = (contextBefore or '') + ourReplaceText + (contextAfter or '')
                             result = confirmCallback( ref, contextBefore, ourFindText, contextAfter, willBeText, resultDict['numReplaces']>0 )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "findReplaceText got", result )
                             assert result in 'YNASU'
-- 
2.43.0


From 55257342f26df5e465f1aaa7c74f133d513dc755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 073/140] fix: findReplaceText for the end of a line only found
 the end of the file

---
 BibleOrgSys/Formats/USFM2Bible.py | 2 +-
 BibleOrgSys/Formats/USFMBible.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index becf360..fdb7c74 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -448,7 +448,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         elif optionsDict['wordMode'] == 'EndsWord':
                             if ixAfter<len(bookText) and bookText[ixAfter].isalpha(): ix+=1; continue
                         elif optionsDict['wordMode'] == 'EndsLine':
-                            if ixAfter<len(bookText): ix+=1; continue
+                            if ixAfter<len(bookText) and bookText[ixAfter]!='\n': ix+=1; continue
 
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 31a7ce0..86dcff6 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -416,7 +416,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         elif optionsDict['wordMode'] == 'EndsWord':
                             if ixAfter<len(bookText) and bookText[ixAfter].isalpha(): ix+=1; continue
                         elif optionsDict['wordMode'] == 'EndsLine':
-                            if ixAfter<len(bookText): ix+=1; continue
+                            if ixAfter<len(bookText) and bookText[ixAfter]!='\n': ix+=1; continue
 
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
-- 
2.43.0


From 6678245c36a4284a1338f091bc253c62ec7b3165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 074/140] fix: findReplaceText counted places and books which
 fail the word mode as found

---
 BibleOrgSys/Formats/USFM2Bible.py | 5 ++---
 BibleOrgSys/Formats/USFMBible.py  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index fdb7c74..c177738 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -434,9 +434,6 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         ix = bookText.find( ourFindText, ix )
                         if ix == -1: break # none / no more found
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found {!r} at {:,} in {}".format( ourFindText, ix, BBB ) )
-                        resultDict['numFinds'] += 1
-                        if BBB not in resultDict['foundBookList']: resultDict['foundBookList'].append( BBB )
-
                         ixAfter = ix + searchLen
                         if optionsDict['wordMode'] == 'Whole':
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BF", repr(bookText[ix-1]) )
@@ -449,6 +446,8 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                             if ixAfter<len(bookText) and bookText[ixAfter].isalpha(): ix+=1; continue
                         elif optionsDict['wordMode'] == 'EndsLine':
                             if ixAfter<len(bookText) and bookText[ixAfter]!='\n': ix+=1; continue
+                        resultDict['numFinds'] += 1
+                        if BBB not in resultDict['foundBookList']: resultDict['foundBookList'].append( BBB )
 
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 86dcff6..1e86d52 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -402,9 +402,6 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         ix = bookText.find( ourFindText, ix )
                         if ix == -1: break # none / no more found
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found {!r} at {:,} in {}".format( ourFindText, ix, BBB ) )
-                        resultDict['numFinds'] += 1
-                        if BBB not in resultDict['foundBookList']: resultDict['foundBookList'].append( BBB )
-
                         ixAfter = ix + searchLen
                         if optionsDict['wordMode'] == 'Whole':
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BF", repr(bookText[ix-1]) )
@@ -417,6 +414,8 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                             if ixAfter<len(bookText) and bookText[ixAfter].isalpha(): ix+=1; continue
                         elif optionsDict['wordMode'] == 'EndsLine':
                             if ixAfter<len(bookText) and bookText[ixAfter]!='\n': ix+=1; continue
+                        resultDict['numFinds'] += 1
+                        if BBB not in resultDict['foundBookList']: resultDict['foundBookList'].append( BBB )
 
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
-- 
2.43.0


From 099c45f60ccc69dba2f78d7785015ce8eee5366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 075/140] fix: findReplaceText didn't change text matched by a
 regex with lookahead or lookbehind

---
 BibleOrgSys/Formats/USFM2Bible.py | 4 ++--
 BibleOrgSys/Formats/USFMBible.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index c177738..b4da21e 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -392,8 +392,8 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         if not match: break # none / no more found
                         ix, ixAfter = match.span()
                         regexFoundText = bookText[ix:ixAfter]
-                        try: regexReplacementText = compiledFindText.sub( ourReplaceText, regexFoundText, count=1 )
-                        except re.error as err:
+                        try: regexReplacementText = match.expand( ourReplaceText ) # Not sub() on the found text, because that loses any lookahead/lookbehind
+                        except (re.error, IndexError) as err:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Search/Replace regex error: {}".format( err ) )
                             resultDict['hadRegexError'] = True
                             stopFlag = True; break
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 1e86d52..aca72dc 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -360,8 +360,8 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         if not match: break # none / no more found
                         ix, ixAfter = match.span()
                         regexFoundText = bookText[ix:ixAfter]
-                        try: regexReplacementText = compiledFindText.sub( ourReplaceText, regexFoundText, count=1 )
-                        except re.error as err:
+                        try: regexReplacementText = match.expand( ourReplaceText ) # Not sub() on the found text, because that loses any lookahead/lookbehind
+                        except (re.error, IndexError) as err:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Search/Replace regex error: {}".format( err ) )
                             resultDict['hadRegexError'] = True
                             stopFlag = True; break
-- 
2.43.0


From 6a4a2b67a9c2f135e292ac2e234d78fcd6b10fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 076/140] fix: findReplaceText never finished for a regex which
 matches empty text

---
 BibleOrgSys/Formats/USFM2Bible.py | 3 ++-
 BibleOrgSys/Formats/USFMBible.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index b4da21e..2005931 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -387,7 +387,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                 #C, V = '-1', '0'
                 if optionsDict['regexFlag']: # ignores wordMode flag
                     ix = 0
-                    while True:
+                    while ix <= len(bookText):
                         match = compiledFindText.search( bookText, ix )
                         if not match: break # none / no more found
                         ix, ixAfter = match.span()
@@ -423,6 +423,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ix={:,}, ixAfter={:,}, diffLen={}".format( ix, ixAfter, diffLen ) )
                             bookText = bookText[:ix] + regexReplacementText + bookText[ixAfter:]
                             ix += len( regexReplacementText ) # Start searching after the replacement
+                            if not regexFoundText: ix += 1 # So don't keep repeating an empty find
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ix={:,}, ixAfter={:,}, now={!r}".format( ix, ixAfter, bookText ) )
                             resultDict['numReplaces'] += 1
                             if BBB not in resultDict['replacedBookList']: resultDict['replacedBookList'].append( BBB )
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index aca72dc..5522b43 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -355,7 +355,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                 #C, V = '-1', '0'
                 if optionsDict['regexFlag']: # ignores wordMode flag
                     ix = 0
-                    while True:
+                    while ix <= len(bookText):
                         match = compiledFindText.search( bookText, ix )
                         if not match: break # none / no more found
                         ix, ixAfter = match.span()
@@ -391,6 +391,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ix={:,}, ixAfter={:,}, diffLen={}".format( ix, ixAfter, diffLen ) )
                             bookText = bookText[:ix] + regexReplacementText + bookText[ixAfter:]
                             ix += len( regexReplacementText ) # Start searching after the replacement
+                            if not regexFoundText: ix += 1 # So don't keep repeating an empty find
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ix={:,}, ixAfter={:,}, now={!r}".format( ix, ixAfter, bookText ) )
                             resultDict['numReplaces'] += 1
                             if BBB not in resultDict['replacedBookList']: resultDict['replacedBookList'].append( BBB )
-- 
2.43.0


From 563099edb267e25df78d9d701200976e3089a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 077/140] fix: reloadBook didn't reload a book which was
 already loaded

---
 BibleOrgSys/Internals/InternalBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 23a7894..0a3e8ce 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -414,6 +414,7 @@ class InternalBible:
         fnPrint( DEBUGGING_THIS_MODULE, f"InternalBible.reloadBook( {BBB} )" )
 
         #if BBB not in self.books and BBB not in self.triedLoadingBook:
+        self.bookNeedsReloading[BBB] = True # Otherwise loadBook() does nothing for an already loaded book
         try: self.loadBook( BBB ) # Some types of Bibles have this function (so an entire Bible doesn't have to be loaded at startup)
         except AttributeError: logging.info( "No function to load individual Bible book: {}".format( BBB ) ) # Ignore errors
         except FileNotFoundError: logging.info( "Unable to find and load individual Bible book: {}".format( BBB ) ) # Ignore errors
-- 
2.43.0


From f4aa864991fed981389c12cb6f0afe4da4d9d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 078/140] fix: loading a USFM Bible with several processes
 didn't reload changed books

---
 BibleOrgSys/Formats/USFM2Bible.py | 3 ++-
 BibleOrgSys/Formats/USFMBible.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 2005931..8ca8fbb 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -643,7 +643,7 @@ class USFM2Bible( Bible ):
         fnPrint( DEBUGGING_THIS_MODULE, "loadBookMP( {} )".format( BBB_Filename_duple ) )
 
         BBB, filename = BBB_Filename_duple
-        if BBB in self.books:
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return self.books[BBB] # Already loaded
         #if BBB in self.triedLoadingBook:
@@ -684,6 +684,7 @@ class USFM2Bible( Bible ):
                     for bBook in results:
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
+                        self.bookNeedsReloading[bBook.BBB] = False
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 5522b43..7d45729 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -625,7 +625,7 @@ class USFMBible( Bible ):
         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"USFMBible._loadBookMP( {BBB_Filename_duple} )", id(self) )
 
         BBB, filename = BBB_Filename_duple
-        if BBB in self.books:
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return self.books[BBB] # Already loaded
         #if BBB in self.triedLoadingBook:
@@ -669,6 +669,7 @@ class USFMBible( Bible ):
                         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"Stashing {bBook.BBB} {id(bBook)} with {id(bBook.containerBibleObject)}" )
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
+                        self.bookNeedsReloading[bBook.BBB] = False
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
-- 
2.43.0


From 87c5196847b6ef80ec5fbe9f0dacbad5e7bbddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 079/140] fix: ESFMBible never reloaded a changed book

---
 BibleOrgSys/Formats/ESFMBible.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 6435d3a..9a4fa7a 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -480,11 +480,12 @@ class ESFMBible( Bible ):
         NOTE: You should ensure that preload() has been called first.
         """
         fnPrint( DEBUGGING_THIS_MODULE, "ESFMBible.loadBook( {}, {} )".format( BBB, filename ) )
-        if BBB in self.books: return # Already loaded
         if BBB in self.dontLoadBook: return # Must be a dictionary that's already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading ESFM {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading ESFM {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
@@ -504,6 +505,7 @@ class ESFMBible( Bible ):
             EBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
             self.stashBook( EBB )
         else: logging.info( "ESFM book {} was completely blank".format( BBB ) )
+        self.bookNeedsReloading[BBB] = False
     # end of ESFMBible.loadBook
 
 
-- 
2.43.0


From b482260482ad132cf30d08ea1f849ff8e9bc30f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 080/140] fix: loading an ESFM Bible with several processes
 failed if a book was already loaded

---
 BibleOrgSys/Formats/ESFMBible.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 9a4fa7a..77f7084 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -518,8 +518,9 @@ class ESFMBible( Bible ):
         """
         fnPrint( DEBUGGING_THIS_MODULE, "ESFMBible.loadBookMP( {} )".format( BBB_Filename ) )
         BBB, filename = BBB_Filename
-        assert BBB not in self.books
         if BBB in self.dontLoadBook: return None
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB ):
+            return self.books[BBB] # Already loaded
         self.triedLoadingBook[BBB] = True
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  ESFMBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
@@ -558,6 +559,7 @@ class ESFMBible( Bible ):
                         if bBook is not None:
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
+                            self.bookNeedsReloading[bBook.BBB] = False
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
-- 
2.43.0


From d3c2c4b30ccdab8926868c83f74ccdc8431ab20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 081/140] fix: asking a USX Bible about a book which it doesn't
 have raised a KeyError

---
 BibleOrgSys/Formats/USXXMLBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 082071b..336030a 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -226,7 +226,8 @@ class USXXMLBible( Bible ):
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  USXXMLBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
-        if filename is None: filename = self.possibleFilenameDict[BBB]
+        if filename is None and BBB in self.possibleFilenameDict: filename = self.possibleFilenameDict[BBB]
+        if filename is None: raise FileNotFoundError( "USXXMLBible.loadBook: Unable to find file for {}".format( BBB ) )
         UBB = USXXMLBibleBook( self, BBB )
         UBB.load( filename, self.givenFolderName, self.encoding )
         UBB.validateMarkers()
-- 
2.43.0


From f414362e810bf7253212b389f9f4586f9052cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 082/140] fix: loading a USX Bible with several processes
 failed if a book was already loaded

---
 BibleOrgSys/Formats/USXXMLBible.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 336030a..48db901 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -252,10 +252,11 @@ class USXXMLBible( Bible ):
         if self.doExtraChecking:
             assert self.preloadDone
 
-        if BBB in self.books: return # Already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading USX {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return self.books[BBB] # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading USX {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  USXXMLBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
@@ -309,10 +310,12 @@ class USXXMLBible( Bible ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "results", results )
                 #assert len(results) == len(parameters)
                 for j, UBB in enumerate( results ):
+                    if UBB is None: continue # Had already failed to load it
                     BBB = parameters[j]
                     #self.books[BBB] = UBB
                     UBB.containerBibleObject = self # Because the pickling and unpickling messes this up
                     self.stashBook( UBB )
+                    self.bookNeedsReloading[BBB] = False
                     # Make up our book name dictionaries while we're at it
                     assumedBookNames = UBB.getAssumedBookNames()
                     for assumedBookName in assumedBookNames:
-- 
2.43.0


From 7a7a145cd847535bd9d120f96882a4d283441208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 083/140] fix: getContextVerseDataRange depended on which books
 had been loaded in which order

---
 BibleOrgSys/Internals/InternalBible.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 0a3e8ce..de193de 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2340,8 +2340,12 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                     lastC = self.books[BBB].getNumChapters()
                     return str(lastC), str(self.books[BBB].getNumVerses( str(lastC) ))
                 verseEntryList, contextList = self.books[startBBB].getContextVerseDataRange( startBCVReference, (startBBB,*getLastCV(startBBB)), strict=strict )
-                loadedBBBs = list( self.books )
-                for BBB in loadedBBBs[loadedBBBs.index(startBBB)+1:loadedBBBs.index(endBBB)]: # The whole of any books in between
+                # Individual books can be loaded in any order, so use the order of the files if we know that
+                possibleBBBs = list( getattr( self, 'possibleFilenameDict', {} ) )
+                orderedBBBs = possibleBBBs if startBBB in possibleBBBs and endBBB in possibleBBBs else list( self.books )
+                for BBB in orderedBBBs[orderedBBBs.index(startBBB)+1:orderedBBBs.index(endBBB)]: # The whole of any books in between
+                    self.loadBookIfNecessary( BBB )
+                    if BBB not in self.books: continue
                     verseEntryList = verseEntryList + self.books[BBB].getContextVerseDataRange( (BBB,'1','1'), (BBB,*getLastCV(BBB)), strict=strict )[0]
                 verseEntryList2, _contextList2 = self.books[endBBB].getContextVerseDataRange( (endBBB,'1','1'), endBCVReference, strict=strict )
                 return verseEntryList+verseEntryList2, contextList
-- 
2.43.0


From 0a06fd0129d890a233501012fa1f52855934582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 084/140] fix: PickledBible.loadBooks didn't load Bibles with
 one or two books

---
 BibleOrgSys/Formats/PickledBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 7caa927..6485926 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -726,7 +726,7 @@ class PickledBible( Bible ):
             logging.critical( "PickledBible.loadBooks() failed" )
             return
 
-        if len( self.pickleVersionData['bookList'] ) > 2:
+        if self.pickleVersionData['bookList']:
             if BibleOrgSysGlobals.maxProcesses > 1 \
             and not BibleOrgSysGlobals.alreadyMultiprocessing: # Get our subprocesses ready and waiting for work
                 # Load all the books as quickly as possible
-- 
2.43.0


From a0b4bc9bdc04fb3f59540ef5b662ccefe89b4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 085/140] fix: PickledBibleFileCheck couldn't load a pickled
 Bible in a sub-folder

---
 BibleOrgSys/Formats/PickledBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 6485926..846998e 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -166,6 +166,7 @@ def PickledBibleFileCheck( givenPathname:Path, strictCheck:bool=True, autoLoad:b
                     #somethingUpper = something.upper()
                     if something in (ZIPPED_PICKLE_FILENAME_END, VERSION_FILENAME):
                         foundSubfiles.append( something )
+                        foundProjects.append( tryFolderName )
                         numFound += 1
         except PermissionError: pass # can't read folder, e.g., system folder
 
-- 
2.43.0


From 5969a79ffd0d5786c48bf02e11a9b33f6df872e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 086/140] fix: books of a PickledBible loaded one by one didn't
 know their Bible

---
 BibleOrgSys/Formats/PickledBible.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 846998e..3d6ac19 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -660,6 +660,7 @@ class PickledBible( Bible ):
         bookObject = InternalBibleBook( 'NoneYet—StillUnpickling', BBB )
         bookObject.objectNameString = 'Pickled Bible book object'
         bookObject.objectTypeString = 'PickledBibleBook'
+        bookObject.workName = self.getAName( abbrevFirst=True )
         if self.pickleIsZipped:
             with zipfile.ZipFile( self.pickleFilepath ) as thisZip:
                 with thisZip.open( BOOK_FILENAME.format( BBB ) ) as pickleInputFile:
@@ -692,7 +693,9 @@ class PickledBible( Bible ):
                 logging.warning( "We had already tried loading Pickle {} for {}".format( BBB, self.name ) )
                 return # We've already attempted to load this book
 
-        self.books[BBB] = self._loadBookEssentials( BBB )
+        bookObject = self._loadBookEssentials( BBB )
+        bookObject.containerBibleObject = self
+        self.books[BBB] = bookObject
     # end of PickledBible.loadBook
 
 
-- 
2.43.0


From c3cc0e2d0c55a9c478d74dd3c7e289883d02cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 087/140] fix: asking a zipped PickledBible about a book which
 it doesn't have raised a KeyError

---
 BibleOrgSys/Formats/PickledBible.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 3d6ac19..611e5c9 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -693,6 +693,9 @@ class PickledBible( Bible ):
                 logging.warning( "We had already tried loading Pickle {} for {}".format( BBB, self.name ) )
                 return # We've already attempted to load this book
 
+        if BBB not in self.pickleVersionData['bookList']:
+            logging.warning( "PickledBible: {} has no book {}".format( self.name, BBB ) )
+            return
         bookObject = self._loadBookEssentials( BBB )
         bookObject.containerBibleObject = self
         self.books[BBB] = bookObject
-- 
2.43.0


From 8bed4c7d7e91e5bd807b3cc94b748201f69585d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 088/140] fix: no more exports were possible from a Bible which
 was pickled after an export

---
 BibleOrgSys/Internals/InternalBible.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index de193de..ff08c1d 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1003,7 +1003,9 @@ class InternalBible:
         
         try: del self.XMLTree # No need to hold onto this XML source code
         except AttributeError: pass
-        try: del self.genericBOS # This is unpicklable for some reason
+        try:
+            del self.genericBOS # This is unpicklable for some reason
+            self.doneSetupGeneric = False # so that it will be set up again when it's next needed
         except AttributeError: pass
             # CRITICAL: BibleOrgSysGlobals: Unexpected error in pickleObject: <class '_pickle.PicklingError'> Can't pickle <class 'BibleOrgSys.Reference.BibleBooksNames.BibleBooksNamesSystems'>: it's not the same object as BibleOrgSys.Reference.BibleBooksNames.BibleBooksNamesSystems
             # CRITICAL: Can't pickle badAttribute='books' when pickling <class 'dict'> from <class 'BibleOrgSys.Formats.ZefaniaXMLBible.ZefaniaXMLBible'>
-- 
2.43.0


From 5bd10108fb9820b5ba65dd2717848c91df7e0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 089/140] fix: pickled Bibles with data levels 2 and 3 couldn't
 be loaded again

---
 BibleOrgSys/Formats/PickledBible.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 611e5c9..ddf7cbc 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -240,7 +240,7 @@ def createPickledBible( BibleObject:Bible, outputFolder=None, metadataDict:dict[
                                                         '_indexedFlag','_CVIndex')) \
                             or (dataLevel==2 and attributeName not in ('errorDictionary','containerBibleObject',
                                                         'checkUSFMSequencesFlag')) \
-                            or dataLevel not in (1,2):
+                            or (dataLevel not in (1,2) and attributeName!='containerBibleObject'): # (that one is the whole Bible)
                                 if DEBUGGING_THIS_MODULE:
                                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Book attribute size", attributeName, BibleOrgSysGlobals.totalSize( attributeValue ) )
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  pickling", typeAsString, attributeName, attributeValue if attributeName!='discoveryResults' else '…' )
@@ -278,8 +278,10 @@ def createPickledBible( BibleObject:Bible, outputFolder=None, metadataDict:dict[
                     or (dataLevel==2 and attributeName not in ('books','discoveryResults',
                                                 'triedLoadingBook','bookNeedsReloading','preloadDone',
                                                 'errorDictionary','genericBRL',
-                                                'USFMFilenamesObject','ssfFilepath')) \
-                    or dataLevel not in (1,2):
+                                                'USFMFilenamesObject','ssfFilepath','loadedAllBooks','doneSetupGeneric')) \
+                    or (dataLevel not in (1,2) and attributeName not in ('books', # They're in their own files
+                                                'triedLoadingBook','bookNeedsReloading','preloadDone',
+                                                'genericBRL','loadedAllBooks','doneSetupGeneric')):
                         if DEBUGGING_THIS_MODULE:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Bible attribute size", attributeName, BibleOrgSysGlobals.totalSize( attributeValue ) )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  pickling", typeAsString, attributeName, attributeValue if attributeName!='discoveryResults' else '…' )
@@ -358,7 +360,7 @@ def _loadObjectAttributes( pickleFileObject, BibleObject ):
         attributeValue = pickle.load( pickleFileObject )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Attribute {attributeName}='{attributeValue}' {type(attributeValue)}" )
         assert attributeValue is None \
-            or isinstance( attributeValue, (str,bool,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
+            or isinstance( attributeValue, (str,bool,int,list,dict,set,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
         if attributeName == 'objectNameString': attributeName = 'originalObjectNameString'
         elif attributeName == 'objectTypeString': attributeName = 'originalObjectTypeString'
         # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "attribute: {} = {}".format( attributeName, attributeValue if attributeName!='discoveryResults' else '…' ) )
@@ -386,7 +388,7 @@ def _getObjectAttributesDict( pickleFileObject, selected=None ):
         attributeValue = pickle.load( pickleFileObject )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Attribute {}={}".format( attributeName, attributeValue ) )
         assert attributeValue is None \
-            or isinstance( attributeValue, (str,bool,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
+            or isinstance( attributeValue, (str,bool,int,list,dict,set,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
         if attributeName == 'objectNameString': attributeName = 'originalObjectNameString'
         elif attributeName == 'objectTypeString': attributeName = 'originalObjectTypeString'
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "attribute: {} = {}".format( attributeName, attributeValue if attributeName!='discoveryResults' else '…' ) )
-- 
2.43.0


From e563ce53569c4a0934ab84baa4b9a07f0f603c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 090/140] fix: toHTML5 failed if the output folder already
 existed

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index df05ead..1b27353 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2084,7 +2084,7 @@ class BibleWriter( InternalBible ):
         if not self.doneSetupGeneric: self.__setupWriter()
         if not outputFolderpath: outputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( 'BOS_HTML5_Export/' )
         WEBoutputFolder = os.path.join( outputFolderpath, 'Website/' )
-        if not os.access( outputFolderpath, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
+        if not os.access( WEBoutputFolder, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
 
         if not controlDict:
             controlDict, defaultControlFilename = {}, "To_HTML5_controls.txt"
-- 
2.43.0


From e154785dea02b06c9eb5f4a41bc723b06b892cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 091/140] fix: theWord and MySword exports lost the text after
 a cross-reference or failed for one at the end of a verse

---
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 2b84c5e..cb4b8f3 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -426,7 +426,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             assert ixEnd != -1
             xrList = line[ixXT+4:ixEnd].strip().split(';')
             newList = [f'<RX {entry.strip()}>' for entry in xrList]
-            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3]}" # Reassemble the line
+            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3:]}" # Reassemble the line
         else:
             logging.critical( "theWordAdjustLine had footnote nesting problem with {BBB} {C}:{V} '{originalLine}'" )
             line = removeUSFMCharacterField( 'x', originalLine, closedFlag=True ).lstrip() # Remove superfluous spaces
-- 
2.43.0


From ccef9cd40a773166959f1e3e713f0e4eb8d16941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 092/140] fix: the compressed MySword module contained the full
 path of the export folder

---
 BibleOrgSys/Formats/MySwordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index 3566b7f..0fee435 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -647,7 +647,7 @@ def createMySwordModule( self, outputFolder, controlDict ):
     # Now create the gzipped file
     vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Compressing {} MySword file…".format( filename ) )
     tar = tarfile.open( filepath+'.gz', 'w:gz' )
-    tar.add( filepath )
+    tar.add( filepath, arcname=filename, recursive=False )
     tar.close()
 
     if BibleOrgSysGlobals.verbosityLevel > 0 and BibleOrgSysGlobals.maxProcesses > 1:
-- 
2.43.0


From d0a416ca7d177bf16994c75b743b727725c25976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 093/140] fix: the zip file of a repeated USFM2 export
 contained the compressed files of the previous export

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 1b27353..1e99a96 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -771,7 +771,7 @@ class BibleWriter( InternalBible ):
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Zipping USFM2 files…" )
         zf = zipfile.ZipFile( os.path.join( outputFolderpath, 'AllUSFM2Files.zip' ), 'w', compression=zipfile.ZIP_DEFLATED )
         for filename in os.listdir( outputFolderpath ):
-            if not filename.endswith( '.zip' ):
+            if filename.endswith( '.usfm' ):
                 filepath = os.path.join( outputFolderpath, filename )
                 zf.write( filepath, filename ) # Save in the archive without the path
         zf.close()
-- 
2.43.0


From 0859d7834cdf39e8ffb3bf947422161a0f7f5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 094/140] fix: exporting to all formats failed if the exports
 didn't finish in time

---
 BibleOrgSys/BibleWriter.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 1e99a96..ed5c19c 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -9972,11 +9972,7 @@ class BibleWriter( InternalBible ):
                 #pool.join()
                 #results = asyncResultObject.get() # Should work now
                 result = timeoutSeconds # Will count as True yet be different
-                results = [result if wantPhotoBible else None, # Just have to assume everything worked
-                                    #result if wantODFs else None,
-                                    result if wantPDFs else None,
-                                    result, result, result, result, result, result, result, result, result, result, result, result,
-                                    result, result, result, result, result, result, result, result, result, result, result, ]
+                results = [None if outputProcess is None else result for outputProcess in self.__outputProcesses] # Just have to assume everything worked
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "async results2 are", results )
             BibleOrgSysGlobals.alreadyMultiprocessing = False
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "BibleWriter.doAllExports: Multiprocessing got {} results".format( len(results) ) )
-- 
2.43.0


From e5e8933f579f9ff94639ab6a9b338f82b9ed3efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 095/140] fix: the discovery totals for the Old and New
 Testaments and the deuterocanon were never made

---
 BibleOrgSys/Internals/InternalBible.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index ff08c1d..a762cc6 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1302,17 +1302,16 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         if BibleOrgSysGlobals.debugFlag: assert 'ALL' not in self.discoveryResults
         for BBB in self.discoveryResults:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "discoveryResults for", BBB, len(self.discoveryResults[BBB]), self.discoveryResults[BBB] )
-            isOT = isNT = isDC = False
+            isOT = BibleOrgSysGlobals.loadedBibleBooksCodes.isOldTestament_NR( BBB )
+            isNT = BibleOrgSysGlobals.loadedBibleBooksCodes.isNewTestament_NR( BBB )
+            isDC = BibleOrgSysGlobals.loadedBibleBooksCodes.isDeuterocanon_NR( BBB )
             if isOT:
-                isOT = True
                 if 'OTBookCount' not in aggregateResults: aggregateResults['OTBookCount'], aggregateResults['OTBookCodes'] = 1, [BBB]
                 else: aggregateResults['OTBookCount'] += 1; aggregateResults['OTBookCodes'].append( BBB )
             elif isNT:
-                isNT = True
                 if 'NTBookCount' not in aggregateResults: aggregateResults['NTBookCount'], aggregateResults['NTBookCodes'] = 1, [BBB]
                 else: aggregateResults['NTBookCount'] += 1; aggregateResults['NTBookCodes'].append( BBB )
             elif isDC:
-                isDC = True
                 if 'DCBookCount' not in aggregateResults: aggregateResults['DCBookCount'], aggregateResults['DCBookCodes'] = 1, [BBB]
                 else: aggregateResults['DCBookCount'] += 1; aggregateResults['DCBookCodes'].append( BBB )
             else: # not conventional OT or NT or DC
-- 
2.43.0


From 9e71aa7dab4adfd6501fccea3b7d738eec367f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 096/140] fix: discovery never counted any figures

---
 BibleOrgSys/Internals/InternalBibleBook.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 570ed55..5e8e6aa 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3310,7 +3310,6 @@ class InternalBibleBook:
             if lastMarker=='v' and (marker!='v~' or not text): bkDict['seemsFinished'] = False
             if text:
                 if '\\+' in text: bkDict['haveNestedUSFMarkers'] = True
-                bkDict['figuresCount'] += text.count( '\\fig ' )
                 if marker in BOS_PRINTABLE_MARKERS: # process this main text
                     countWordsForDiscover( marker, cleanText, 'main' )
                 #else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Ignoring {} {}:{} {}={}".format( self.BBB, C, V, marker, repr(text) ) )
@@ -3337,6 +3336,8 @@ class InternalBibleBook:
                         if '\\xo' in extraText: bkDict['haveCrossReferenceOrigins'] = True
                         if cleanExtraText and cleanExtraText[-1] in '.።' or cleanExtraText.endswith('.”'):
                             xrefsPeriodCount += 1
+                    elif extraType=='fig':
+                        bkDict['figuresCount'] += 1
                     if extraType not in ('fig','ww'): # No useful words in those two extra types
                         countWordsForDiscover( extraType, cleanExtraText, 'extra' )
             lastMarker = marker
-- 
2.43.0


From 14e62e858618c0a2e744a00eff2e01d742d0d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 097/140] fix: a book seemed to be finished when its last verse
 was empty

---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 5e8e6aa..127ce42 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3341,6 +3341,7 @@ class InternalBibleBook:
                     if extraType not in ('fig','ww'): # No useful words in those two extra types
                         countWordsForDiscover( extraType, cleanExtraText, 'extra' )
             lastMarker = marker
+        if lastMarker == 'v': bkDict['seemsFinished'] = False # The last verse is empty
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'wordCount', self.BBB, bkDict['wordCount'] )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'uniqueWordCount', self.BBB, bkDict['uniqueWordCount'] )
         bkDict['uniqueWordCount'] = len( bkDict['allWordCounts'] )
-- 
2.43.0


From 4279559c03888a9ad466cd4f9f5bcdcc5753426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 098/140] fix: the character and word checks left out the text
 of the verses and paragraphs

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 127ce42..55dc2b3 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4126,7 +4126,7 @@ class InternalBibleBook:
                 characterErrors.append( lineLocationSpace + _("Trailing space in {!r}").format( adjText ) )
                 self.addPriorityError( 5, C, V, _("Trailing space in text line") )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lineLocationSpace + _("Trailing space in {} {!r}").format( marker, adjText ) )
-            if BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted( marker ): # Only do character counts on lines that will be printed
+            if marker in ('v~','p~','c~') or BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted( marker ): # Only do character counts on lines that will be printed
                 for char in adjText:
                     lcChar = char.lower()
 
@@ -4577,7 +4577,7 @@ class InternalBibleBook:
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
 
-            if text and BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted(marker): # process this main text
+            if text and (marker in ('v~','p~','c~') or BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted(marker)): # process this main text
                 lastTextWordTuple = countWordsForCheck( marker, cleanText, lastTextWordTuple )
 
             extras = entry.getExtras()
-- 
2.43.0


From d555d26cf451c7a9c7e070cf6a35e59f9739df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 099/140] fix: discovery said that a book was not started when
 all its text comes after paragraph markers

---
 BibleOrgSys/Internals/InternalBibleBook.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 55dc2b3..1def92a 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3298,7 +3298,8 @@ class InternalBibleBook:
                 if cleanText[0]=='(' and cleanText[-1]==')': sectionRefParenthCount += 1
             elif marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                 bkDict['haveParagraphMarkers'] = True
-                if text: bkDict['haveVerseText'] = True
+            elif marker=='p~' and text: # The text of a paragraph (comes after the paragraph marker)
+                bkDict['haveVerseText'] = True
             elif marker in ('is1','ip','iot','io1'):
                 bkDict['haveIntroductoryMarkers'] = True
                 if text: bkDict['haveIntroductoryText'] = True
-- 
2.43.0


From a75efb13fd3c9796f547c8072aa640bc0dbe8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 100/140] fix: checking a book failed with an endnote in a
 heading

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 1def92a..74c7362 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4027,7 +4027,7 @@ class InternalBibleBook:
                     adjExtraMarkers = thisExtraMarkers
                     for uninterestingMarker in allAvailableCharacterMarkers: # Remove character formatting markers so we can check the footnote/xref hierarchy
                         while uninterestingMarker in adjExtraMarkers: adjExtraMarkers.remove( uninterestingMarker )
-                    if adjExtraMarkers and adjExtraMarkers not in BibleOrgSysGlobals.loadedUSFMMarkers.getTypicalNoteSets( extraType ):
+                    if extraType in ('fn','xr') and adjExtraMarkers and adjExtraMarkers not in BibleOrgSysGlobals.loadedUSFMMarkers.getTypicalNoteSets( extraType ):
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got", extraType, extraText, thisExtraMarkers )
                         if thisExtraMarkers: noteMarkerErrors.append( lineLocationSpace + _("Unusual {} marker set: {} in {}").format( extraName, thisExtraMarkers, extraText ) )
                         else: noteMarkerErrors.append( lineLocationSpace + _("Missing {} formatting in {}").format( extraName, extraText ) )
-- 
2.43.0


From 0d10b67bb1243f576329d876bd16760f73bed227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 101/140] fix: the check of the markers reported correctly
 nested character markers as wrong

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 74c7362..658a45b 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3927,14 +3927,14 @@ class InternalBibleBook:
                                 logging.warning( _("Unexpected {}{} marker after {} {}:{} in {}: {}").format( insideMarker, nextSignificantChar, self.BBB, C, V, marker, text ) )
                                 self.addPriorityError( 66, C, V, _("Unexpected {}{} marker").format( insideMarker, nextSignificantChar ) )
                         else: # have at least one open marker
-                            if nextSignificantChar=='*':
+                            if nextSignificantChar in ('*','-'):
                                 if insideMarker==openList[-1]: openList.pop() # We got the correct closing marker
                                 else:
                                     internalMarkerErrors.append( lineLocationSpace + _("Wrong {}* closing marker for {} in {}: {}").format( insideMarker, openList[-1], marker, text ) )
                                     logging.warning( _("Wrong {}* closing marker for {} after {} {}:{} in {}: {}").format( insideMarker, openList[-1], self.BBB, C, V, marker, text ) )
                                     self.addPriorityError( 66, C, V, _("Wrong {}* closing marker for {}").format( insideMarker, openList[-1] ) )
                             else: # it's not an asterisk so appears to be another marker
-                                if not BibleOrgSysGlobals.loadedUSFMMarkers.isNestingMarker( openList[-1] ): openList.pop() # Let this marker close the last one
+                                if nextSignificantChar!='+' and not BibleOrgSysGlobals.loadedUSFMMarkers.isNestingMarker( openList[-1] ): openList.pop() # Let this marker close the last one
                                 openList.append( insideMarker ) # Now have multiple entries in the openList
                 if len(openList) == 1: # only one marker left open
                     closedFlag = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerClosureType( openList[0] )
-- 
2.43.0


From 4a42932702e5a3eacc8d2f4fa2ce58da070cdede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 102/140] fix: the check of the markers left out the text and
 the notes of the verses and paragraphs

---
 BibleOrgSys/Internals/InternalBibleBook.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 658a45b..31dce7d 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3735,15 +3735,8 @@ class InternalBibleBook:
 
             if marker[0] == '¬' or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                 continue # Just ignore these added markers
-            elif marker == 'v~':
-                lastMarker, lastMarkerEmpty = 'v', markerEmpty
-                continue
-            elif marker == 'p~':
-                lastMarker, lastMarkerEmpty = 'p', markerEmpty # not sure if this is correct here ?????
-                continue
-            elif marker == 'c~':
-                lastMarker, lastMarkerEmpty = 'c', markerEmpty
-                continue
+            addedTextMarker = marker in ('v~','p~','c~') # These are the text of the previous marker, so check their text and notes, but not the marker itself
+            if addedTextMarker: pass
             elif marker == 'cl¤':
                 lastMarker, lastMarkerEmpty = 'c', markerEmpty
                 continue
@@ -3759,7 +3752,7 @@ class InternalBibleBook:
                 newlineMarkerCounts[marker] = 1 if marker not in newlineMarkerCounts else (newlineMarkerCounts[marker] + 1)
 
             # Check the progression through the various sections
-            try: newSection = BibleOrgSysGlobals.loadedUSFMMarkers.markerOccursIn( marker if marker!='v~' else 'v' )
+            try: newSection = section if addedTextMarker else BibleOrgSysGlobals.loadedUSFMMarkers.markerOccursIn( marker )
             except KeyError: logging.error( "IBB:doCheckSFMs: markerOccursIn failed for {!r}".format( marker ) )
             if newSection != section: # Check changes into new sections
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{} {}:{} {} takes us from {} to {}".format( self.BBB, C, V, marker, section, newSection ) )
@@ -3789,17 +3782,18 @@ class InternalBibleBook:
                 section = newSection
 
             # Note the newline SFM order -- create a list of markers in order (with duplicates combined, e.g., \v \v -> \v+)
-            if marker != lastModifiedMarker: modifiedMarkerList.append( marker )
+            if addedTextMarker: pass
+            elif marker != lastModifiedMarker: modifiedMarkerList.append( marker )
             else: # same marker in a row -- we append a sign to the saved marker to indicate multiple occurrences
                 oldMarker = modifiedMarkerList.pop()
                 assert oldMarker == marker or oldMarker == marker+'*'
                 modifiedMarkerList.append( marker+'*' ) # Save the marker with the sign
-            lastModifiedMarker = marker
+            if not addedTextMarker: lastModifiedMarker = marker
 
             # Check for known bad combinations
             if marker=='nb' and lastMarker in ('s','s1','s2','s3','s4', 'qa'):
                 newlineMarkerErrors.append( lineLocationSpace + _("'nb' not allowed immediately after {!r} section heading").format( marker ) )
-            if self.checkUSFMSequencesFlag: # Check for known good combinations
+            if self.checkUSFMSequencesFlag and not addedTextMarker: # Check for known good combinations
                 commonGoodNewlineMarkerCombinations = (
                     # If a marker has nothing after it, it must contain data
                     # If a marker has =E after it, it must NOT contain data
@@ -4048,7 +4042,7 @@ class InternalBibleBook:
                         functionalCounts['Footnotes'] = 1 if 'Footnotes' not in functionalCounts else (functionalCounts['Footnotes'] + 1)
                     elif extraType == 'xr':
                         functionalCounts['Cross-References'] = 1 if 'Cross-References' not in functionalCounts else (functionalCounts['Cross-References'] + 1)
-            lastMarker, lastMarkerEmpty = marker, markerEmpty
+            lastMarker, lastMarkerEmpty = marker[0] if addedTextMarker else marker, markerEmpty
 
 
         # Check the relative ordering of newline markers
-- 
2.43.0


From 665634d43c9d4de512101a8a4e78e7c41a8853b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 103/140] fix: the word and character checks took the
 attributes of words and figures as text

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 31dce7d..9b61844 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4223,7 +4223,7 @@ class InternalBibleBook:
                     #    cleanExtraText = cleanExtraText.replace( sign, '' )
                     #for marker in ['\\xo*','\\xo ','\\xt*','\\xt ','\\xdc*','\\xdc ','\\fr*','\\fr ','\\ft*','\\ft ','\\fq*','\\fq ','\\fv*','\\fv ','\\fk*','\\fk ',] + BibleOrgSysGlobals.internal_SFMs_to_remove:
                     #    cleanExtraText = cleanExtraText.replace( marker, '' )
-                    if cleanExtraText: countCharacters( cleanExtraText )
+                    if cleanExtraText and extraType not in ('fig','ww'): countCharacters( cleanExtraText ) # Those two only have names and attributes
 
         # Add up the totals
         if (characterErrors or simpleCharacterCounts or unicodeCharacterCounts or letterCounts or punctuationCounts) and 'Characters' not in self.checkResultsDictionary:
@@ -4592,7 +4592,7 @@ class InternalBibleBook:
                     #    cleanExtraText = cleanExtraText.replace( sign, '' )
                     #for marker in ('\\xo*','\\xo ','\\xt*','\\xt ','\\xdc*','\\xdc ','\\fr*','\\fr ','\\ft*','\\ft ','\\fq*','\\fq ','\\fv*','\\fv ','\\fk*','\\fk '):
                     #    cleanExtraText = cleanExtraText.replace( marker, '' )
-                    countWordsForCheck( extraType, cleanExtraText )
+                    if extraType not in ('fig','ww'): countWordsForCheck( extraType, cleanExtraText ) # No useful words in those two extra types
 
         # Add up the totals
         if (wordErrors or wordCounts or caseInsensitiveWordCounts) and 'Words' not in self.checkResultsDictionary: self.checkResultsDictionary['Words'] = {} # So we hopefully get the errors first
-- 
2.43.0


From 7c56d090343a8d1ce23ba19467d5dfb7a342ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 104/140] fix: the letter counts counted capital letters as
 different letters

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 9b61844..0f722a9 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4128,7 +4128,7 @@ class InternalBibleBook:
                     if char==' ': simpleCharName = simpleLCCharName = 'Space'
                     elif char==' ': simpleCharName = simpleLCCharName = 'NBSpace'
                     elif char==chr(0): simpleCharName = simpleLCCharName = 'Null'
-                    else: simpleCharName = simpleLCCharName = char
+                    else: simpleCharName, simpleLCCharName = char, lcChar
 
                     try: unicodeCharName = unicodedata.name( char )
                     except ValueError: unicodeCharName = simpleCharName
-- 
2.43.0


From 174f0b81633276e03fe346d67388b90d45dbb993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 105/140] fix: discovery never noticed any lists

---
 BibleOrgSys/Internals/InternalBibleBook.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 0f722a9..2aca755 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3298,6 +3298,7 @@ class InternalBibleBook:
                 if cleanText[0]=='(' and cleanText[-1]==')': sectionRefParenthCount += 1
             elif marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                 bkDict['haveParagraphMarkers'] = True
+                if marker == 'li1': bkDict['haveLists'] = True
             elif marker=='p~' and text: # The text of a paragraph (comes after the paragraph marker)
                 bkDict['haveVerseText'] = True
             elif marker in ('is1','ip','iot','io1'):
@@ -3305,8 +3306,6 @@ class InternalBibleBook:
                 if text: bkDict['haveIntroductoryText'] = True
             elif marker == 'tr':
                 bkDict['haveTables'] = True
-            elif marker == 'li1':
-                bkDict['haveLists'] = True
 
             if lastMarker=='v' and (marker!='v~' or not text): bkDict['seemsFinished'] = False
             if text:
-- 
2.43.0


From 27a00506d5ae4b16c008969641e24940817631d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 106/140] fix: notes on a chapter number or a verse number were
 stored twice

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 2aca755..8843636 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2414,7 +2414,7 @@ class InternalBibleBook:
                             if adjText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " adjText:", repr(adjText) )
                             if cleanText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " cleanText:", repr(cleanText) )
                             if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " extras:", extras )
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, C, C, extras, C) ) # Write the chapter number as a separate line
+                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, C, C, None, C) ) # Write the chapter number as a separate line (the extras go with the c~ text)
                         adjustedMarker, text = 'c~', cBits[1]
             elif originalMarker=='cp' and text:
                 V = '0'
@@ -2522,7 +2522,7 @@ class InternalBibleBook:
                             if adjText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " adjText:", repr(adjText) )
                             if cleanText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " cleanText:", repr(cleanText) )
                             if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " extras:", extras )
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, verseNumberBit, verseNumberBit, extras, verseNumberBit) ) # Write the verse number (or range) as a separate line
+                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, verseNumberBit, verseNumberBit, None, verseNumberBit) ) # Write the verse number (or range) as a separate line (the extras go with the v~ text)
                     else:
                         self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, verseNumberBit, verseNumberBit, None, verseNumberBit) ) # Write the verse number (or range) as a separate line
 
-- 
2.43.0


From fc97a0bbe3d6d60c6bf2cfcb25385d8f08a37c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 107/140] fix: the check counted and listed an outline title
 which is not in the book

---
 BibleOrgSys/Internals/InternalBibleBook.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 8843636..1b2267b 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3732,7 +3732,8 @@ class InternalBibleBook:
                 if logger is not None:
                     logger( _("Marker {!r} has no content after").format( marker ) + " {} {}:{}".format( self.BBB, C, V ) )
 
-            if marker[0] == '¬' or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
+            if marker[0] == '¬' or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=' \
+            or (marker=='iot' and originalMarker is None):
                 continue # Just ignore these added markers
             addedTextMarker = marker in ('v~','p~','c~') # These are the text of the previous marker, so check their text and notes, but not the marker itself
             if addedTextMarker: pass
@@ -4758,7 +4759,7 @@ class InternalBibleBook:
                     introductionErrors.append( lineLocationSpace + _("{} heading ends with a period: {}").format( marker, text ) )
                     self.addPriorityError( 49, C, V, _("Heading ends with a period") )
             elif marker=='iot':
-                titleList.append( "{} {}:{} '{}'".format( self.BBB, C, V, text ) )
+                if text is not None: titleList.append( "{} {}:{} '{}'".format( self.BBB, C, V, text ) )
                 if not cleanText:
                     introductionErrors.append( lineLocationSpace + _("Missing outline title text for marker {}").format( marker ) )
                     self.addPriorityError( 38, C, V, _("Missing outline title text") )
-- 
2.43.0


From 0efe1c31503792d086585160eebb844d1740fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 108/140] fix: getting the name of a book failed if the names
 system doesn't have that book of the system

---
 BibleOrgSys/Reference/BibleBooksNames.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 498ab7d..35d8cd9 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -514,6 +514,7 @@ class BibleBooksNamesSystem:
         """
         if BibleOrgSysGlobals.debugFlag: assert len(BBB) == 3
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__systemName )
+        if isinstance( self.__bookNamesDict[BBB], str ): return self.__bookNamesDict[BBB] # There's no entry for this book
         return self.__bookNamesDict[BBB]['defaultName']
     # end of BibleBooksNamesSystem.getBookName
 
@@ -523,6 +524,7 @@ class BibleBooksNamesSystem:
         Get the default book abbreviation from the given referenceAbbreviation.
         """
         if BibleOrgSysGlobals.debugFlag: assert len(BBB) == 3
+        if isinstance( self.__bookNamesDict[BBB], str ): return self.__bookNamesDict[BBB] # There's no entry for this book
         return self.__bookNamesDict[BBB]['defaultAbbreviation']
     # end of BibleBooksNamesSystem.getBookAbbreviation
 
-- 
2.43.0


From 80122eb852d888e4c056b4739aac81b02c523869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 109/140] fix: book names and abbreviations found a different
 book if a name in another language starts with them

---
 BibleOrgSys/Reference/BibleBooksNames.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 35d8cd9..f8df190 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -371,6 +371,13 @@ class BibleBooksNamesSystems:
 
         upperCaseBookNameOrAbbreviation = bookNameOrAbbreviation.upper()
 
+        # Exact matches (in any system) are better than only matching the start of a name
+        for systemName in self.__DataDicts:
+            for BBB in self.__DataDicts[systemName][2]:
+                for possibility in self.__DataDicts[systemName][2][BBB]['inputFields']:
+                    if possibility.upper() == upperCaseBookNameOrAbbreviation:
+                        return BBB
+
         for systemName in self.__DataDicts:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\n'+repr(systemName) )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__DataDicts[systemName] )
-- 
2.43.0


From 82726a9b0867248e727ee563d4834c484267d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 110/140] fix: organisational systems didn't find the values of
 a text that their text is derived from

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index d9ba3c7..03f6ed5 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -244,6 +244,12 @@ class BibleOrganisationalSystems:
                         result = self.getOrganisationalSystemValue( trySystemName, valueName, suppressErrors=True )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "trySystemName result is {}".format( repr(result) ) ); halt
                         if result is not None: return result
+            if 'derivedFrom' in thisSystem:
+                trySystemName = thisSystem['derivedFrom']
+                if isinstance( trySystemName, list ): trySystemName = trySystemName[0] # Take the first string from the list
+                if self.getOrganisationalSystem( trySystemName, suppressErrors=True ) is not thisSystem: # Avoid infinite recursion
+                    result = self.getOrganisationalSystemValue( trySystemName, valueName, suppressErrors=True )
+                    if result is not None: return result
             # else we couldn't find it anywhere
             logging.error( _("{} Bible Organisational System has no {} specified (a)").format( systemName, valueName ) )
     # end of BibleOrganisationalSystems.getOrganisationalSystemValue
-- 
2.43.0


From 8640cf90456bd96da6d3cf98c654cda9b210a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 111/140] fix: USFM2 text with a nested closing marker which
 was not opened could not be parsed

---
 BibleOrgSys/Reference/USFM2Markers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 09eefc0..e431a9e 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -645,7 +645,9 @@ class USFM2Markers:
             elif x==' ' or x=='': # Open marker in line or at end of line
                 cx = [m] #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "set", cx )
             elif x=='+': cx.append( m ) #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "add", m, cx )
-            elif x=='-': cx.pop() #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "del", m, cx )
+            elif x=='-':
+                if cx: cx.pop() #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "del", m, cx )
+                else: logging.error( _("USFM2Markers.getMarkerListFromText found superfluous {!r} in {!r}").format( mx, text ) )
             elif x=='*': cx = [] #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "clr", cx )
             else:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USFM2Markers.getMarkerListFromText: Shouldn't happen", firstResult, secondResult,
-- 
2.43.0


From 5ea8f0de5be4531c43af85786a16e3ba517b79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 112/140] fix: the closing index of a USFM marker missed a
 following opening of the same marker

---
 BibleOrgSys/Reference/USFM2Markers.py | 4 +++-
 BibleOrgSys/Reference/USFM3Markers.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index e431a9e..00bcda0 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -668,7 +668,9 @@ class USFM2Markers:
                 assert cx[cxi] == m
                 for k in range( j+1, rLen ):
                     m2, ix2, x2, mx2, cx2, tx2 = secondResult[k]
-                    if len(cx2)<=cxi or cx2[cxi] != m: ixEnd = k; break
+                    if len(cx2)<=cxi or cx2[cxi] != m \
+                    or x2 in (' ',''): # A new (non-nested) opening marker closes this one, even if it's the same marker
+                        ixEnd = k; break
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'final', j, m, ix, repr(x), repr(mx), cx, repr(tx), ixEnd )
             thirdResult.append( (m, ix, x, mx, cx[:], ixEnd, tx,) )
 
diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 2f0a2c5..7978886 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -695,7 +695,9 @@ class USFM3Markers:
                 assert cx[cxi] == m, f"In USFM3Markers.getMarkerListFromText: {cxi=} {cx[cxi]=}  {m=}"
                 for k in range( j+1, rLen ):
                     m2, ix2, x2, mx2, cx2, tx2 = secondResult[k]
-                    if len(cx2)<=cxi or cx2[cxi] != m: ixEnd = k; break
+                    if len(cx2)<=cxi or cx2[cxi] != m \
+                    or x2 in (' ',''): # A new (non-nested) opening marker closes this one, even if it's the same marker
+                        ixEnd = k; break
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'final', j, m, ix, repr(x), repr(mx), cx, repr(tx), ixEnd )
             thirdResult.append( (m, ix, x, mx, cx[:], ixEnd, tx,) )
 
-- 
2.43.0


From 8a0ea2c646c139b83554173cfe3b6de2a94af4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 113/140] fix: a deprecated numberable USFM marker without its
 number was not reported as deprecated

---
 BibleOrgSys/Reference/USFM2Markers.py | 3 ++-
 BibleOrgSys/Reference/USFM3Markers.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 00bcda0..7f449f2 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -386,7 +386,8 @@ class USFM2Markers:
 
     def isDeprecatedMarker( self, marker ):
         """ Return True or False. """
-        return marker in self.__DataDict["deprecatedMarkersList"]
+        if marker not in self.__DataDict['combinedMarkerDict']: return False
+        return self.__DataDict['rawMarkerDict'][self.toRawMarker(marker)]['deprecatedFlag']
 
 
     def isCompulsoryMarker( self, marker ):
diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 7978886..ec86bdd 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -386,7 +386,8 @@ class USFM3Markers:
 
     def isDeprecatedMarker( self, marker ):
         """ Return True or False. """
-        return marker in self.__DataDict["deprecatedMarkersList"]
+        if marker not in self.__DataDict['combinedMarkerDict']: return False
+        return self.__DataDict['rawMarkerDict'][self.toRawMarker(marker)]['deprecatedFlag']
 
 
     def isCompulsoryMarker( self, marker ):
-- 
2.43.0


From d7b38e21d40a9e9253a2434c6cfa0b5c624c39e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 114/140] fix: removing an unclosed USFM field with an embedded
 marker never ended

---
 BibleOrgSys/Reference/USFM2Markers.py | 5 ++---
 BibleOrgSys/Reference/USFM3Markers.py | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 7f449f2..63fac78 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -123,11 +123,10 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
             text = text[:ix] + text[ixEnd+mLen+2:]
         elif closedFlag == False:
             ixEnd = text.find( '\\', ix+mLen+2 )
+            while ixEnd!=-1 and ixEnd<tLen-1 and text[ixEnd+1]=='+': # It's an embedded marker inside this field
+                ixEnd = text.find( '\\', ixEnd+1 )
             if ixEnd == -1: # remove until end of line
                 text = text[:ix]
-            elif ixEnd<tLen-1 and text[ixEnd+1]=='+': # We've hit an embedded marker
-                logging.critical( "removeUSFMCharacterField: doesn't handle embedded markers yet with {!r} in {!r}".format( marker, originalText ) )
-                if BibleOrgSysGlobals.debugFlag: halt
             else:
                 text = text[:ix] + text[ixEnd:]
         ix = text.find( '\\'+marker+' ' )
diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index ec86bdd..59b250f 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -120,12 +120,10 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
             text = text[:ix] + text[ixEnd+mLen+2:]
         elif closedFlag == False:
             ixEnd = text.find( '\\', ix+mLen+2 )
+            while ixEnd!=-1 and ixEnd<tLen-1 and text[ixEnd+1]=='+': # It's an embedded marker inside this field
+                ixEnd = text.find( '\\', ixEnd+1 )
             if ixEnd == -1: # remove until end of line
                 text = text[:ix]
-            elif ixEnd<tLen-1 and text[ixEnd+1]=='+': # We've hit an embedded marker
-                logger = logging.critical if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag else logging.error
-                logger( "removeUSFMCharacterField: doesn't handle embedded markers yet with {!r} in {!r}".format( marker, originalText ) )
-                if DEBUGGING_THIS_MODULE and BibleOrgSysGlobals.debugFlag: halt
             else:
                 text = text[:ix] + text[ixEnd:]
         ix = text.find( f'\\{marker} ' )
-- 
2.43.0


From adadcc0ce64849682cfe3a2419dc0ed0bd9e1ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 115/140] fix: numbered forms of the USFM milestone markers had
 the number in the wrong place

---
 BibleOrgSys/Reference/USFM3Markers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 59b250f..027cd9c 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -537,11 +537,17 @@ class USFM3Markers:
                 if expandNumberableMarkers and self.isNumberableMarker( marker ):
                     for digit in range(1, int(self.__DataDict['rawMarkerDict'][self.toRawMarker(marker)]['highestNumberSuffix'])+1):
                         str_digit = str(digit)
-                        result.append( adjMarker+str_digit )
-                        if includeNestedMarkers: result.append( nestedMarker+str_digit )
+                        # The numerical suffix goes in front of the -s or -e of milestone start/end markers, e.g., qt1-s
+                        splitIndex = -2 if marker.endswith('-s') or marker.endswith('-e') else len(adjMarker)
+                        numberedMarker = adjMarker[:splitIndex] + str_digit + adjMarker[splitIndex:]
+                        result.append( numberedMarker )
+                        if includeNestedMarkers:
+                            splitIndex = -2 if splitIndex==-2 else len(nestedMarker)
+                            nestedNumberedMarker = nestedMarker[:splitIndex] + str_digit + nestedMarker[splitIndex:]
+                            result.append( nestedNumberedMarker )
                         if includeEndMarkers:
-                            result.append( adjMarker + str_digit + '*' )
-                            if includeNestedMarkers: result.append( nestedMarker + str_digit + '*' )
+                            result.append( numberedMarker + '*' )
+                            if includeNestedMarkers: result.append( nestedNumberedMarker + '*' )
         return result
     # end of USFM3Markers.getCharacterMarkersList
 
-- 
2.43.0


From ce36fa228533dcb58c992fc36658c280c40f685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 116/140] fix: reprocessing a book added the previous discovery
 totals as if they were another book

---
 BibleOrgSys/Internals/InternalBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index a762cc6..eb0ca1b 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1299,6 +1299,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         """
         fnPrint( DEBUGGING_THIS_MODULE, "InternalBible:__aggregateDiscoveryResults()" )
         aggregateResults = {}
+        self.discoveryResults.pop( 'ALL', None ) # Any previous totals are now out-of-date
         if BibleOrgSysGlobals.debugFlag: assert 'ALL' not in self.discoveryResults
         for BBB in self.discoveryResults:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "discoveryResults for", BBB, len(self.discoveryResults[BBB]), self.discoveryResults[BBB] )
-- 
2.43.0


From 0abf6290d287b2059ea63662ce13deb6ff5e784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:06 +0000
Subject: [PATCH 117/140] fix: nested character styles in USX files lost their
 nesting when loaded

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 1fa408e..6c8fc7a 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -207,7 +207,7 @@ class USXXMLBibleBook( BibleBook ):
         # end of load.loadVerseNumberField
 
 
-        def loadCharField( charElement, charLocation:str ) -> str:
+        def loadCharField( charElement, charLocation:str, nested:bool=False ) -> str:
             """
             Load a formatted / char field from the USX XML.
 
@@ -231,7 +231,8 @@ class USXXMLBibleBook( BibleBook ):
                 else:
                     logging.error( _("QU52 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-            charLine = f"\\{charStyle} {'' if BibleOrgSysGlobals.isBlank( charElement.text) else charElement.text}"
+            charMarker = f'+{charStyle}' if nested else charStyle # USFM needs the plus sign for nested character styles
+            charLine = f"\\{charMarker} {'' if BibleOrgSysGlobals.isBlank( charElement.text) else charElement.text}"
             assert '\n' not in charLine
 
             # Now process the subelements -- chars are one of the few multiply embedded fields in USX
@@ -240,7 +241,7 @@ class USXXMLBibleBook( BibleBook ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} {}'.format( self.BBB, C, V, charElement.tag ) )
                 if subelement.tag == 'char': # milestone (not a container)
                     # print( f"RECURSIVE {sublocation=} {subelement=}" )
-                    charLine += loadCharField( subelement, sublocation ) # recursive call
+                    charLine += loadCharField( subelement, sublocation, nested=True ) # recursive call
                 elif subelement.tag == 'ref':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ref", BibleOrgSysGlobals.elementStr( subelement ) )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation )
@@ -271,7 +272,7 @@ class USXXMLBibleBook( BibleBook ):
                     assert '\t' not in charLine
             if charClosed != False: # None or True
                 # assert not charLine.endswith( ' ' )
-                charLine += '\\{}*'.format( charStyle )
+                charLine += '\\{}*'.format( charMarker )
             # A character field must be added to the previous field
             #if charElement.tail is not None: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " tail2", repr(charElement.tail) )
             charTail = ''
-- 
2.43.0


From b0e7bbbf4657e1367ac5fc3ea5ec63813086b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:06 +0000
Subject: [PATCH 118/140] fix: a space after a figure, reference or optional
 break in a USX file was dropped, joining words

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 34 ++++++++++++++------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 6c8fc7a..cfac16d 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -207,6 +207,18 @@ class USXXMLBibleBook( BibleBook ):
         # end of load.loadVerseNumberField
 
 
+        def getTail( element ) -> str:
+            """
+            Returns the text after an element (which might be only the space before the next one)
+                but without any new lines and indenting.
+            """
+            tail = element.tail if element.tail else ''
+            if tail and tail[0] in ('\n','\t'): tail = tail.lstrip()
+            if tail and tail[-1] in ('\n','\t'): tail = tail.rstrip()
+            return tail
+        # end of load.getTail
+
+
         def loadCharField( charElement, charLocation:str, nested:bool=False ) -> str:
             """
             Load a formatted / char field from the USX XML.
@@ -254,7 +266,7 @@ class USXXMLBibleBook( BibleBook ):
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ref", refLoc, repr(charElement.text), repr(charElement.tail), repr(charElement.text + (charElement.tail if element.tail else '')) )
                     charLine += (subelement.text if not BibleOrgSysGlobals.isBlank(subelement.text) else '') \
-                                + (subelement.tail if not BibleOrgSysGlobals.isBlank(subelement.tail) else '')
+                                + getTail( subelement )
                     # TODO: How do we save reference in USFM???
                 elif subelement.tag == 'note':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "NOTE", BibleOrgSysGlobals.elementStr( subelement ) )
@@ -275,11 +287,7 @@ class USXXMLBibleBook( BibleBook ):
                 charLine += '\\{}*'.format( charMarker )
             # A character field must be added to the previous field
             #if charElement.tail is not None: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " tail2", repr(charElement.tail) )
-            charTail = ''
-            if charElement.tail:
-                charTail = charElement.tail
-                if charTail[0]=='\n': charTail = charTail.lstrip() # Paratext puts footnote parts on new lines
-                if charTail and charTail[-1] in ('\n','\t'): charTail = charTail.rstrip()
+            charTail = getTail( charElement ) # Paratext puts footnote parts on new lines
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "charLine", repr(charLine), "charStyle", repr(charStyle), "charTail", repr(charTail) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert '\n' not in charLine
@@ -363,12 +371,7 @@ class USXXMLBibleBook( BibleBook ):
             if self.doExtraChecking: assert '\n' not in noteField
 
             # Now process the left-overs (tail)
-            if noteElement.tail:
-                #if '\n' in noteElement.tail: halt
-                noteTail = noteElement.tail
-                if noteTail[0] in ('\n','\t'): noteTail = noteTail.lstrip() # Paratext puts multiple cross-references on new lines
-                if noteTail and noteTail[-1] in ('\n','\t'): noteTail = noteTail.rstrip()
-                noteField += noteTail
+            noteField += getTail( noteElement ) # Paratext puts multiple cross-references on new lines
 
             vPrint( 'Never', DEBUGGING_THIS_MODULE, "  loadNoteField returning noteField: {!r}".format( noteField ) )
             if self.doExtraChecking: assert '\n' not in noteField
@@ -476,7 +479,7 @@ class USXXMLBibleBook( BibleBook ):
                     BibleOrgSysGlobals.checkXMLNoText( element, location )
                     BibleOrgSysGlobals.checkXMLNoAttributes( element, location )
                     BibleOrgSysGlobals.checkXMLNoSubelements( element, location )
-                    if not BibleOrgSysGlobals.isBlank( element.tail ): self.appendToLastLine( '//' + element.tail )
+                    self.appendToLastLine( '//' + getTail( element ) )
                 elif element.tag == 'ref': # In later USX versions
                     BibleOrgSysGlobals.checkXMLNoSubelements( element, location )
                     # Process the attribute first
@@ -487,7 +490,7 @@ class USXXMLBibleBook( BibleBook ):
                             logging.error( _("KW74 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ref", refLoc, repr(element.text), repr(element.tail), repr(element.text + (element.tail if element.tail else '')) )
-                    self.appendToLastLine( element.text + (element.tail if element.tail else '') )
+                    self.appendToLastLine( (element.text if element.text else '') + getTail( element ) )
                     # TODO: How do we save reference in USFM???
                 elif element.tag == 'figure':
                     BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'FG11' )
@@ -507,8 +510,7 @@ class USXXMLBibleBook( BibleBook ):
                     figCaption = element.text
                     figLine = '\\fig {}|{}|{}|{}|{}|{}|{}\\fig*'.format( figDesc, figFile, figSize, figLoc, figCopy, figCaption, figRef )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "figLine", figLine )
-                    self.appendToLastLine( figLine )
-                    if not BibleOrgSysGlobals.isBlank( element.tail ): self.appendToLastLine( element.tail )
+                    self.appendToLastLine( figLine + getTail( element ) )
                 else:
                     logging.error( _("SW22 Unprocessed {} element after {} {}:{} in {}").format( element.tag, self.BBB, C, V, location ) )
                     self.addPriorityError( 1, C, V, _("Unprocessed {} element").format( element.tag ) )
-- 
2.43.0


From 541a28a95c9c109141af3ad8f6510bea07467b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 119/140] fix: the attributes of words in USX files were
 dropped when loaded

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index cfac16d..0c0a0bd 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -232,6 +232,7 @@ class USXXMLBibleBook( BibleBook ):
 
             # Process the attributes first
             charStyle = charClosed = None
+            wordAttributes:list[str] = []
             for attrib,value in charElement.items():
                 if attrib=='style':
                     charStyle = value # This is basically the USFM character marker name
@@ -240,9 +241,8 @@ class USXXMLBibleBook( BibleBook ):
                 elif attrib == 'closed':
                     assert value == 'false'
                     charClosed = False
-                else:
-                    logging.error( _("QU52 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
-                    if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
+                else: # must be a USFM word attribute
+                    wordAttributes.append( f'{attrib}="{value}"' )
             charMarker = f'+{charStyle}' if nested else charStyle # USFM needs the plus sign for nested character styles
             charLine = f"\\{charMarker} {'' if BibleOrgSysGlobals.isBlank( charElement.text) else charElement.text}"
             assert '\n' not in charLine
@@ -282,6 +282,7 @@ class USXXMLBibleBook( BibleBook ):
                 if BibleOrgSysGlobals.strictCheckingFlag:
                     assert '\n' not in charLine
                     assert '\t' not in charLine
+            if wordAttributes: charLine += f"|{' '.join( wordAttributes )}"
             if charClosed != False: # None or True
                 # assert not charLine.endswith( ' ' )
                 charLine += '\\{}*'.format( charMarker )
-- 
2.43.0


From 6c504af32c43ea3d940f888bf0176b8d1d56ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 120/140] fix: milestones in USX files were dropped when
 loaded, and the text after them was lost

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 0c0a0bd..4ceb17d 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -219,6 +219,20 @@ class USXXMLBibleBook( BibleBook ):
         # end of load.getTail
 
 
+        def loadMilestoneField( milestoneElement ) -> str:
+            """
+            Returns the USFM string for a milestone from the USX XML
+                along with any text which follows it.
+            """
+            milestoneStyle, attributes = '', ''
+            for attrib,value in milestoneElement.items():
+                if attrib=='style': milestoneStyle = value
+                else: attributes += f' {attrib}="{value}"'
+            if attributes: attributes = f' |{attributes[1:]}'
+            return f'\\{milestoneStyle}{attributes}\\*{getTail( milestoneElement )}'
+        # end of load.loadMilestoneField
+
+
         def loadCharField( charElement, charLocation:str, nested:bool=False ) -> str:
             """
             Load a formatted / char field from the USX XML.
@@ -275,6 +289,8 @@ class USXXMLBibleBook( BibleBook ):
                         assert '\n' not in processedNoteField
                         assert '\t' not in processedNoteField
                     charLine += processedNoteField
+                elif subelement.tag == 'ms':
+                    charLine += loadMilestoneField( subelement )
                 else:
                     logging.error( _("BD23 Unprocessed {} subelement ({}) after {} {}:{} in {}").format( subelement.tag, subelement.text.strip() if subelement.text else subelement.text, self.BBB, C, V, sublocation ) )
                     self.addPriorityError( 1, C, V, _("Unprocessed {} subelement").format( subelement.tag ) )
@@ -452,6 +468,8 @@ class USXXMLBibleBook( BibleBook ):
                     processedNoteField = loadNoteField( element, location )
                     if BibleOrgSysGlobals.strictCheckingFlag: assert '\n' not in processedNoteField
                     self.appendToLastLine( processedNoteField )
+                elif element.tag == 'ms':
+                    self.appendToLastLine( loadMilestoneField( element ) )
                 elif element.tag == 'link': # Used to include extra resources
                     BibleOrgSysGlobals.checkXMLNoText( element, location )
                     BibleOrgSysGlobals.checkXMLNoTail( element, location )
-- 
2.43.0


From 014362803e721b248e28bf08a222e2bdc4348f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 121/140] fix: references directly inside a note of a USX file
 were dropped when loaded

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 4ceb17d..8170dc7 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -360,6 +360,9 @@ class USXXMLBibleBook( BibleBook ):
                     noteCharField = loadCharField( subelement, sublocation ) # Handles the tail
                     # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"  loadCharField() returned {noteCharField=}" )
                     noteField += noteCharField
+                elif subelement.tag == 'ref':
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation )
+                    noteField += (subelement.text if subelement.text else '') + getTail( subelement )
                 elif subelement.tag == 'unmatched': # Used to denote errors in the source text
                     BibleOrgSysGlobals.checkXMLNoText( subelement, sublocation )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation )
-- 
2.43.0


From b64d3dcbd9bfff2f997ca9611c47aea8293e9f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 122/140] fix: formatted text and verse numbers in the tables
 of USX files were put before their row when loaded

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 8170dc7..413df7c 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -678,7 +678,7 @@ class USXXMLBibleBook( BibleBook ):
                                 logging.error( _("LK46 Unprocessed {} attribute ({}) in {}").format( attrib, value, sublocation ) )
                                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                         assert rowStyle == 'tr'
-                        tableCode = ''
+                        self.addLine( 'tr', '' )
                         for sub2element in subelement:
                             sub2location = sub2element.tag + " in " + sublocation
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  hereT {} {} {}:{} {}".format( self.workName, self.BBB, C, V, sub2location ) )
@@ -698,9 +698,10 @@ class USXXMLBibleBook( BibleBook ):
                                 if BibleOrgSysGlobals.strictCheckingFlag:
                                     assert cellStyle in ('th1','th2','th3','th4', 'thr1','thr2','thr3','thr4', 'tc1','tc2','tc3','tc4', 'tcr1','tcr2','tcr3','tcr4')
                                     assert alignMode in (None, 'start', 'end')
-                                tableCode += '\\{} {}'.format( cellStyle,
+                                tableCode = '\\{} {}'.format( cellStyle,
                                                 sub2element.text if not BibleOrgSysGlobals.isBlank(sub2element.text) else '' )
                                 assert '\n' not in tableCode
+                                self.appendToLastLine( tableCode )
                                 for sub3element in sub2element:
                                     sub3location = sub3element.tag + " in " + sub2location
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    here3", sub3location )
@@ -709,7 +710,7 @@ class USXXMLBibleBook( BibleBook ):
                                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "NOTE", BibleOrgSysGlobals.elementStr( sub3element ) )
                                         processedNoteField = loadNoteField( sub3element, sub3location )
                                         if BibleOrgSysGlobals.strictCheckingFlag: assert '\n' not in processedNoteField
-                                        tableCode += processedNoteField
+                                        self.appendToLastLine( processedNoteField )
                                         #for sub4element in sub3element:
                                             #sub4location = sub4element.tag + " in " + sub3location
                                             ##dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    here4", sub4location )
@@ -732,16 +733,12 @@ class USXXMLBibleBook( BibleBook ):
                                         logging.error( _("KA29 Unprocessed {} sub3element after {} {}:{} in {}").format( sub3element.tag, self.BBB, C, V, sub3location ) )
                                         self.addPriorityError( 1, C, V, _("Unprocessed {} sub3element").format( sub3element.tag ) )
                                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-                                    assert '\n' not in tableCode
                             elif sub2element.tag == 'verse':
                                 loadVerseNumberField( sub2element, sub2location )
                             else:
                                 logging.error( _("VA81 Unprocessed {} sub2element after {} {}:{} in {}").format( sub2element.tag, self.BBB, C, V, sub2location ) )
                                 self.addPriorityError( 1, C, V, _("Unprocessed {} sub2element").format( sub3element.tag ) )
                                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-                        assert '\n' not in tableCode
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "tableCode: {}".format( tableCode ) )
-                        self.addLine( 'tr', tableCode )
                 else:
                     logging.error( _("DV60 Unprocessed {} element after {} {}:{} in {}").format( element.tag, self.BBB, C, V, location ) )
                     self.addPriorityError( 1, C, V, _("Unprocessed {} element").format( element.tag ) )
-- 
2.43.0


From 342d08b8076e5304eaa9f6394440fe74dbdb7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 123/140] fix: alternative chapter numbers and published verse
 numbers of USX files were dropped when loaded

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 413df7c..d782625 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -115,10 +115,11 @@ class USXXMLBibleBook( BibleBook ):
             else: # it's a chapter start marker
                 V = '0'
                 # Process the attributes
-                chapterStyle = pubNumber = chapterStartId = None
+                chapterStyle = altNumber = pubNumber = chapterStartId = None
                 for attrib,value in chapterNumberElement.items():
                     if attrib=='number': C = value
                     elif attrib=='style': chapterStyle = value
+                    elif attrib=='altnumber': altNumber = value
                     elif attrib=='pubnumber': pubNumber = value
                     elif attrib=='sid':
                         chapterStartId = value
@@ -132,7 +133,7 @@ class USXXMLBibleBook( BibleBook ):
                     logging.warning( _("Unexpected style attribute ({}) in {}").format( chapterStyle, chapterNumberLocation ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                 #if pubNumber: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.BBB, C, repr(pubNumber) ); halt
-                self.addLine( 'c', C )
+                self.addLine( 'c', C + (' \\ca {}\\ca*'.format( altNumber ) if altNumber else '') )
                 if pubNumber: self.addLine( 'cp', pubNumber )
         # end of load.loadChapterNumberField
 
@@ -178,7 +179,7 @@ class USXXMLBibleBook( BibleBook ):
                     if attrib=='number': V = value
                     elif attrib=='style': verseStyle = value
                     elif attrib=='altnumber': altNumber = value
-                    elif attrib=='pubnumber': pubNumber = value # TODO: not used anywhere!
+                    elif attrib=='pubnumber': pubNumber = value
                     elif attrib=='sid':
                         verseStartId = value
                         assert verseStartId[:3] in filename
@@ -196,6 +197,7 @@ class USXXMLBibleBook( BibleBook ):
                     or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt # Bad verse style
                 #if altNumber: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(verseStyle), repr(altNumber) ); halt
                 altStuff = ' \\va {}\\va*'.format( altNumber ) if altNumber else ''
+                if pubNumber: altStuff += ' \\vp {}\\vp*'.format( pubNumber )
                 self.addLine( verseStyle, V + altStuff + ' ' )
                 # Now process the tail (if there's one) which is the verse text
                 if verseNumberElement.tail:
-- 
2.43.0


From 8fcc22bc9303a51042757b8675618a3aa7cd2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 124/140] fix: side bars and peripheral divisions of USX files
 were dropped when loaded

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index d782625..aaf4c0b 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -543,6 +543,25 @@ class USXXMLBibleBook( BibleBook ):
         # end of load.loadParagraph
 
 
+        def getMainElements( containerElement ):
+            """
+            Go through the elements of the USX file
+                including those inside side bars and parts of peripheral books.
+            """
+            for mainElement in containerElement:
+                if mainElement.tag == 'sidebar':
+                    category = mainElement.get( 'category' )
+                    self.addLine( 'esb', '\\cat {}\\cat*'.format( category ) if category else '' )
+                    yield from getMainElements( mainElement )
+                    self.addLine( 'esbe', '' )
+                elif mainElement.tag == 'periph':
+                    periphId = mainElement.get( 'id' )
+                    self.addLine( 'periph', mainElement.get( 'alt', '' ) + ('|id="{}"'.format( periphId ) if periphId else '') )
+                    yield from getMainElements( mainElement )
+                else: yield mainElement
+        # end of load.getMainElements
+
+
         # Main code for load()
         #lastMarker = None
         if BibleOrgSysGlobals.verbosityLevel > 3:
@@ -581,7 +600,7 @@ class USXXMLBibleBook( BibleBook ):
             vPrint( 'Info', DEBUGGING_THIS_MODULE, f"  Parsing USX v{version} file for {self.workName} {self.BBB}…" )
 
             # Now process the data
-            for element in self.XMLTree:
+            for element in getMainElements( self.XMLTree ):
                 location = element.tag + " " + treeLocation
                 if element.tag == 'book': # milestone (not a container)
                     BibleOrgSysGlobals.checkXMLNoSubelements( element, location )
-- 
2.43.0


From 67921e9f7e428c149638fedb6fa3314d280a55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:57 +0000
Subject: [PATCH 125/140] fix: figure descriptions in USX 3.0 files were
 dropped when loaded

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index aaf4c0b..05cb4f3 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -522,7 +522,7 @@ class USXXMLBibleBook( BibleBook ):
                     figStyle = figDesc = figFile = figSize = figLoc = figCopy = figRef = ''
                     for attrib,value in element.items():
                         if attrib=='style': figStyle = value; assert figStyle == 'fig'
-                        elif attrib=='desc': figDesc = value
+                        elif attrib in ('desc','alt'): figDesc = value # Renamed in USX 3.0
                         elif attrib=='file': figFile = value
                         elif attrib=='size': figSize = value
                         elif attrib=='loc': figLoc = value
@@ -531,7 +531,7 @@ class USXXMLBibleBook( BibleBook ):
                         else:
                             logging.error( _("KW84 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-                    figCaption = element.text
+                    figCaption = element.text if element.text else ''
                     figLine = '\\fig {}|{}|{}|{}|{}|{}|{}\\fig*'.format( figDesc, figFile, figSize, figLoc, figCopy, figCaption, figRef )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "figLine", figLine )
                     self.appendToLastLine( figLine + getTail( element ) )
-- 
2.43.0


From 808667b912c8a8c0c985f540d963e52f374753fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 126/140] fix: the space between the text of a paragraph and a
 following element of a USX 1 file was dropped, joining words

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 05cb4f3..d2b8d8e 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -430,7 +430,7 @@ class USXXMLBibleBook( BibleBook ):
 
             # Now process the paragraph text (or write a paragraph marker anyway)
             paragraphText = paragraphXML.text if paragraphXML.text and paragraphXML.text.strip() else ''
-            if version is None: paragraphText = paragraphText.rstrip() # Don't need to strip extra spaces in v2
+            if version is None and ( len(paragraphXML)==0 or '\n' in paragraphText ): paragraphText = paragraphText.rstrip() # Don't need to strip extra spaces in v2
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USXXMLBibleBook.load newLine: {!r} {!r}".format( paragraphStyle, paragraphText ) )
             self.addLine( paragraphStyle, paragraphText )
 
-- 
2.43.0


From baf63ecd49372cb3f1857e941d8749a5152222f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:15 +0000
Subject: [PATCH 127/140] fix: references, milestones and optional breaks in
 tables or character styles of USX files were dropped

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index d2b8d8e..aef6933 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -293,6 +293,8 @@ class USXXMLBibleBook( BibleBook ):
                     charLine += processedNoteField
                 elif subelement.tag == 'ms':
                     charLine += loadMilestoneField( subelement )
+                elif subelement.tag == 'optbreak':
+                    charLine += '//' + getTail( subelement )
                 else:
                     logging.error( _("BD23 Unprocessed {} subelement ({}) after {} {}:{} in {}").format( subelement.tag, subelement.text.strip() if subelement.text else subelement.text, self.BBB, C, V, sublocation ) )
                     self.addPriorityError( 1, C, V, _("Unprocessed {} subelement").format( subelement.tag ) )
@@ -750,6 +752,12 @@ class USXXMLBibleBook( BibleBook ):
                                     elif sub3element.tag == 'char': # Have formatting inside a table
                                         charLine = loadCharField( sub3element, sub3location )
                                         self.appendToLastLine( charLine )
+                                    elif sub3element.tag == 'ref':
+                                        self.appendToLastLine( (sub3element.text if sub3element.text else '') + getTail( sub3element ) )
+                                    elif sub3element.tag == 'ms':
+                                        self.appendToLastLine( loadMilestoneField( sub3element ) )
+                                    elif sub3element.tag == 'optbreak':
+                                        self.appendToLastLine( '//' + getTail( sub3element ) )
                                     else:
                                         logging.error( _("KA29 Unprocessed {} sub3element after {} {}:{} in {}").format( sub3element.tag, self.BBB, C, V, sub3location ) )
                                         self.addPriorityError( 1, C, V, _("Unprocessed {} sub3element").format( sub3element.tag ) )
-- 
2.43.0


From da1bb8568250ee8ff32c168d06cbf1e5d11d85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:47 +0000
Subject: [PATCH 128/140] fix: the VerseView and e-Sword file checks returned a
 number instead of the Bible asked for

---
 BibleOrgSys/Formats/ESwordBible.py       | 2 +-
 BibleOrgSys/Formats/VerseViewXMLBible.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index cbc3521..a035c4d 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -176,7 +176,7 @@ def ESwordBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=
             numFound += 1
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "ESwordBibleFileCheck foundProjects", numFound, foundProjects )
-        if numFound == 1 and (autoLoad and autoLoadBooks):
+        if numFound == 1 and (autoLoad or autoLoadBooks):
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, "{} doing autoload of {}…".format( PROGRAM_NAME_VERSION, foundProjects[0][1] ) )
             if BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
             eSB = ESwordBible( foundProjects[0][0], foundProjects[0][1] )
diff --git a/BibleOrgSys/Formats/VerseViewXMLBible.py b/BibleOrgSys/Formats/VerseViewXMLBible.py
index 3dcd4a4..cad4c30 100755
--- a/BibleOrgSys/Formats/VerseViewXMLBible.py
+++ b/BibleOrgSys/Formats/VerseViewXMLBible.py
@@ -152,7 +152,7 @@ def VerseViewXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad
         numFound += 1
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "VerseViewXMLBibleFileCheck got", numFound, givenFolderName, lastFilenameFound )
-        if numFound == 1 and (autoLoad and autoLoadBooks):
+        if numFound == 1 and (autoLoad or autoLoadBooks):
             ub = VerseViewXMLBible( givenFolderName, lastFilenameFound )
             if autoLoadBooks: ub.load() # Load and process the file
             return ub
-- 
2.43.0


From 13525aac6d9dd73645d5992bcf49c9425b708e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 129/140] fix: a space after an unmatched marker in a USX file
 was dropped, joining words

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index aef6933..6ae0ccf 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -500,7 +500,8 @@ class USXXMLBibleBook( BibleBook ):
                     #BibleOrgSysGlobals.checkXMLNoAttributes( element, location ) # We ignore attributes!!! XXXXXXXXXX
                     BibleOrgSysGlobals.checkXMLNoSubelements( element, location )
                     self.addPriorityError( 2, C, V, _("Unmatched element in {}").format( location) )
-                    if not BibleOrgSysGlobals.isBlank( element.tail ): self.appendToLastLine( element.tail )
+                    unmatchedTail = getTail( element )
+                    if unmatchedTail: self.appendToLastLine( unmatchedTail )
                 elif element.tag == 'optbreak':
                     BibleOrgSysGlobals.checkXMLNoText( element, location )
                     BibleOrgSysGlobals.checkXMLNoAttributes( element, location )
-- 
2.43.0


From 2b6d9f8f3e06b90764b950333c645cddfb16317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:56 +0000
Subject: [PATCH 130/140] fix: MyBible and e-Sword exports lost the last verse
 before every missing verse

---
 BibleOrgSys/Formats/ESwordBible.py  | 12 ++++++------
 BibleOrgSys/Formats/MyBibleBible.py | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index a035c4d..8c5c34f 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1510,12 +1510,12 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                         #if composedLine: # don't bother writing blank (unfinished?) verses
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toESword: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
-                        # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            lineCount += 1
+                    # Stay one line behind (because paragraph indicators get appended to the previous line)
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index acae0d7..c0688b1 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1141,16 +1141,16 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                         #if composedLine: # don't bother writing blank (unfinished?) verses
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toMyBible: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
-                        # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            try:
-                                sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            except Exception as e:
-                                logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
-                                raise e # again
-                            #lineCount += 1
+                    # Stay one line behind (because paragraph indicators get appended to the previous line)
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        try:
+                            sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        except Exception as e:
+                            logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
+                            raise e # again
+                        #lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
-- 
2.43.0


From 8fabde5300216bbae6293103f6b54d0249e7bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:56 +0000
Subject: [PATCH 131/140] fix: Bible module exports lost all but the first part
 of a divided verse

---
 BibleOrgSys/Formats/ESwordBible.py  | 2 +-
 BibleOrgSys/Formats/MyBibleBible.py | 2 +-
 BibleOrgSys/Formats/MySwordBible.py | 2 +-
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 8c5c34f..7f8a0db 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1487,7 +1487,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 verseData = None
                 if bkData:
                     try:
-                        result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                        result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True )
                         verseData, context = result
                     except KeyError: # Just ignore missing verses
                         logging.warning( "BibleWriter.toESword: missing source verse at {} {}:{}".format( BBB, C, V ) )
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index c0688b1..7da9e86 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1118,7 +1118,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 verseData = None
                 if bkData:
                     try:
-                        result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                        result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True )
                         verseData, context = result
                     except KeyError: # Just ignore missing verses
                         logging.warning( "BibleWriter.toMyBible: missing source verse at {} {}:{}".format( BBB, C, V ) )
diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index 0fee435..5805551 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -491,7 +491,7 @@ def createMySwordModule( self, outputFolder, controlDict ):
                 verseData = None
                 if bkData:
                     try:
-                        result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                        result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True )
                         verseData, context = result
                     except KeyError: # Missing verses
                         logging.warning( "BibleWriter.createMySwordModule: missing source verse at {} {}:{}".format( BBB, C, V ) )
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index cb4b8f3..287b1cb 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -1201,7 +1201,7 @@ def createTheWordModule( self, outputFolder, controlDict ):
             verseData, composedLine = None, ''
             if bkData:
                 try:
-                    result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                    result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True )
                     verseData, context = result
                 except KeyError:
                     logging.warning( "BibleWriter.totheWord: missing source verse at {} {}:{}".format( BBB, C, V ) )
-- 
2.43.0


From 0af468794948ce37e21b0f8ccc970545138d416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 132/140] fix: USFMFilenames strict check compares the id
 line's book with the file name's

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 19ae377..c25754d 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -440,9 +440,9 @@ class USFMFilenames:
                     if USFMId is None:
                         logging.error( "{}internal USFM Id missing for {} in {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', BBB, derivedFilename ) )
                         continue # so it doesn't get added
-                    BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMId )
-                    if BBB != BBB:
-                        logging.error( "{}Internal USFM Id ({}{}) doesn't match {} for {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', USFMId, '' if BBB==USFMId else " -> {}".format(BBB), BBB, derivedFilename ) )
+                    idBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMId )
+                    if idBBB != BBB:
+                        logging.error( "{}Internal USFM Id ({}{}) doesn't match {} for {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', USFMId, '' if idBBB==USFMId else " -> {}".format(idBBB), BBB, derivedFilename ) )
                         continue # so it doesn't get added
                 self.doListAppend( BBB, derivedFilename, resultList, "getConfirmedFilenameTuples" )
         self.lastTupleList = resultList
-- 
2.43.0


From e5f947760ace0f42a5ec16619bd53cc7822b0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 133/140] fix: USXFilenames strict check no longer crashes on a
 file without XML declaration

---
 BibleOrgSys/InputOutput/USXFilenames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index c749611..b615e79 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -273,7 +273,7 @@ class USXFilenames:
                     if not firstLines or len(firstLines)<3: continue
                     if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                     and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                     if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                         continue # so it doesn't get added
                 resultList.append( (BBB, possibleFilename,) )
@@ -311,7 +311,7 @@ class USXFilenames:
                                 continue
                             if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                             if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                                 continue # so it doesn't get added
                         self.doListAppend( BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMBookCode ), possibleFilename, resultList, "getPossibleFilenameTuplesExt" )
-- 
2.43.0


From b677aa2bea5e0c6052740b51302b14c2805f9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 134/140] fix: USXFilenames recognises three-letter names by
 the USX book code

---
 BibleOrgSys/InputOutput/USXFilenames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index b615e79..7991643 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -120,10 +120,10 @@ class USXFilenames:
                 if foundLength == 3:
                     self.hyphenIndex = None
                     for USXBookCode,USXDigits,BBB in BibleOrgSysGlobals.loadedBibleBooksCodes.getAllUSXBooksCodeNumberTriples():
-                        if foundFileBit == BBB:
+                        if foundFileBit == USXBookCode.upper():
                             self.pattern = 'BBB'
                             matched = True
-                        elif foundFileBit.upper() == BBB:
+                        elif foundFileBit.upper() == USXBookCode.upper():
                             self.pattern = 'bbb'
                             matched = True
                 elif foundLength>=6 and containsDigits:
-- 
2.43.0


From 8ee24922e2bf9b8209d275718ab3261a1de346d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 135/140] fix: USXFilenames recognises a folder of New
 Testament files named like 41-MAT.usx

---
 BibleOrgSys/InputOutput/USXFilenames.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index 7991643..c2104fd 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -143,8 +143,8 @@ class USXFilenames:
                             if USXBookCode.isupper(): self.pattern = self.pattern.replace( 'bbb', 'BBB' )
                             matched = True
                             break
-                        elif USXDigits[1:] in foundFileBit and '-' in foundFileBit and (USXBookCode in foundFileBit or USXBookCode.upper() in foundFileBit):
-                            digitsIndex = foundFileBit.index( USXDigits[1:] ) # Without the leading zero for the 66 books
+                        elif self._getHyphenDigits( USXDigits ) in foundFileBit and '-' in foundFileBit and (USXBookCode in foundFileBit or USXBookCode.upper() in foundFileBit):
+                            digitsIndex = foundFileBit.index( self._getHyphenDigits( USXDigits ) ) # Without the leading zero for the 66 books
                             hyphenIndex = foundFileBit.index( '-' )
                             USXBookCodeIndex = foundFileBit.index(USXBookCode) if USXBookCode in foundFileBit else foundFileBit.index(USXBookCode.upper())
                             USXBookCode = foundFileBit[USXBookCodeIndex:USXBookCodeIndex+3]
@@ -166,6 +166,16 @@ class USXFilenames:
     # end of USXFilenames.__init__
 
 
+    def _getHyphenDigits( self, USXDigits:str ) -> str:
+        """
+        Returns the two digits used for this book in filenames like 01-GEN.usx (where the NT starts at 41).
+        """
+        if USXDigits.isdigit() and int(USXDigits) > 39:
+            USXDigits = str( int(USXDigits) + 1 ).zfill( 3 )
+        return USXDigits[1:]
+    # end of USXFilenames._getHyphenDigits
+
+
     def __str__( self ) -> str:
         """
         This method returns the string representation of an object.
@@ -235,13 +245,8 @@ class USXFilenames:
                         filename = filename[:self.digitsIndex] + USXDigits + filename[self.digitsIndex+len(USXDigits):]
                         filename = filename[:self.USXBookCodeIndex] + ( USFMBookCode.upper() if 'BBB' in self.pattern else USFMBookCode ) + filename[self.USXBookCodeIndex+len(USFMBookCode):]
                 else: # have a hyphen so assume only two digits
-                    if USXDigits.isdigit():
-                        USXInt = int( USXDigits )
-                        if USXInt > 39:
-                            USXDigits = str( USXInt + 1 )
-                            USXDigits = '0'*(3-len(USXDigits)) + USXDigits
-                            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(USXDigits) ); halt
-                    filename = filename[:self.digitsIndex] + USXDigits[1:] + filename[self.digitsIndex+len(USXDigits)-1:]
+                    hyphenDigits = self._getHyphenDigits( USXDigits )
+                    filename = filename[:self.digitsIndex] + hyphenDigits + filename[self.digitsIndex+len(hyphenDigits):]
                     filename = filename[:self.USXBookCodeIndex] + ( USFMBookCode.upper() if 'BBB' in self.pattern else USFMBookCode ) + filename[self.USXBookCodeIndex+len(USFMBookCode):]
                 filename += f'.{self.fileExtension}'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "getDerivedFilenames: Filename is {!r}".format( filename ) )
-- 
2.43.0


From 44649a3d7e5ae9ef80d07b8e5a703e3c3f7fb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 136/140] fix: theWord and MySword verses lost or misplaced
 text around a line break or heading inside them

---
 BibleOrgSys/Formats/theWordBible.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 287b1cb..6b867a1 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -787,11 +787,17 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "leftovers", repr(leftovers) )
                         assert marker in ('mt1','mt2','mt3', 's1','s2','s3', 'q1','q2','q3', 'r')
                     if BibleOrgSysGlobals.loadedUSFMMarkers.isNewlineMarker( marker ):
-                        bookObject.addLine( marker, bits[1] )
+                        if not writtenV and marker in ('p','m','q1','q2','q3','q4'): # It's the start of the verse text
+                            if C==1 and V==1 and not appendedCFlag: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
+                            bookObject.addLine( marker, '' )
+                            bookObject.addLine( 'v', '{} {}'.format( V, bits[1] ) )
+                            writtenV = True
+                        else: bookObject.addLine( marker, bits[1] )
                     elif not writtenV:
+                        if C==1 and V==1 and not appendedCFlag: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
                         bookObject.addLine( 'v', '{} {}'.format( V, segment ) )
                         writtenV = True
-                    else: leftovers += segment
+                    else: bookObject.addLine( 'v~', segment )
             else: # What is segment is blank (\\NL* at end of line)???
                 if C==1 and V==1 and not appendedCFlag: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
                 if not writtenV:
-- 
2.43.0


From 893e0a8cec16c6ce315254ed5c187760c6163e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 137/140] fix: the module info at the end of theWord files was
 never read

---
 BibleOrgSys/Formats/theWordBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 6b867a1..d605d13 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -879,7 +879,7 @@ class theWordBible( Bible ):
             booksExpected, textLineCountExpected = theWordOTBookCount, theWordOTTotalLines
         elif fileExtensionUpper in ('.NT','.NTX',):
             testament, BBB = 'NT', 'MAT'
-            booksExpected, textLineCountExpected = theWordNTBookCount, theWordOTTotalLines
+            booksExpected, textLineCountExpected = theWordNTBookCount, theWordNTTotalLines
 
         # Create the first book
         thisBook = BibleBook( self, BBB )
@@ -933,7 +933,7 @@ class theWordBible( Bible ):
                                     else: logging.warning( "theWordBible.load: Didn't save {} because it was blank".format( BBB ) )
 
                                     bookCount += 1
-                                    if bookCount >= booksExpected: break
+                                    if bookCount >= booksExpected: continue # Only the module info follows
                                     BBB = BOS.getNextBookCode( BBB )
                                     # Create the next book
                                     thisBook = BibleBook( self, BBB )
-- 
2.43.0


From b2ecf2df32559a8c58e036cbafe258db3d65a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:17 +0000
Subject: [PATCH 138/140] fix: the first paragraph of a MySword book without a
 first verse was lost

---
 BibleOrgSys/Formats/theWordBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index d605d13..b7bcfdb 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -539,6 +539,7 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
     if C!=1 and V==1: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
 
     if line is None: # We don't have an entry for this C:V
+        if C==1 and V==1: bookObject.addLine( 'c', str(C) )
         return
 
     if line.startswith( '<CM>' ) and DEBUGGING_THIS_MODULE:
-- 
2.43.0


From d5561acf968b98c2565bbf03c0e871b41ce8a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:17 +0000
Subject: [PATCH 139/140] fix: a line marker at the start of a theWord or
 MySword verse stayed in its text

---
 BibleOrgSys/Formats/theWordBible.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index b7bcfdb..fcb98f1 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -757,10 +757,10 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
     if line.endswith( '\\q3 \\NL*'): line = line[:-5] # Don't need nl and then space at end of line
     if line.endswith( '\\q4 \\NL*'): line = line[:-5] # Don't need nl and then space at end of line
     if line.endswith( '\\NL*' ): line = line[:-4] # Don't need nl at end of line
-    if '\\NL*' in line: # We need to break the original line into different USFM markers
+    if '\\NL*' in line \
+    or ( line.startswith( '\\' ) and BibleOrgSysGlobals.loadedUSFMMarkers.isNewlineMarker( line[1:].split( ' ', 1 )[0] ) ): # We need to break the original line into different USFM markers
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "\nMessing with segments: {} {}:{} {!r}".format( BBB, C, V, line ) )
         segments = line.split( '\\NL*' )
-        assert len(segments) >= 2
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, " segments (split by backslash):", segments )
         leftovers = ''
         for segment in segments:
@@ -810,6 +810,9 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
                 #if myGlobals['haveParagraph']:
                     #bookObject.addLine( 'p', '' )
                     #myGlobals['haveParagraph'] = False
+        if not writtenV: # There was no verse text
+            if C==1 and V==1 and not appendedCFlag: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
+            bookObject.addLine( 'v', '{} '.format( V ) )
         if leftovers: logging.critical( "Had leftovers {}".format( repr(leftovers) ) )
         if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: assert not leftovers
         #halt
-- 
2.43.0


From 51ae294aafaeef20d4ca2093ad4cd1d0ee77f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:08 +0000
Subject: [PATCH 140/140] fix: MySword modules were read with empty paragraphs
 before poetry lines and next books

---
 BibleOrgSys/Formats/MySwordBible.py | 9 +--------
 BibleOrgSys/Formats/theWordBible.py | 1 +
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index 5805551..5ca9dbe 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -344,16 +344,13 @@ class MySwordBible( Bible ):
                     numC, numV = len(verseList), verseList[0]
                     nBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
                     C = V = 1
+                    ourGlobals['haveParagraph'] = False # Don't carry a paragraph into the next book
                     #thisBook.addLine( 'c', str(C) )
                 else: # next chapter only
                     #thisBook.addLine( 'c', str(C) )
                     numV = verseList[C-1]
                     V = 1
 
-            if ourGlobals['haveParagraph']:
-                thisBook.addLine( 'p', '' )
-                ourGlobals['haveParagraph'] = False
-
         self.cursor.close()
         del self.cursor
         self.applySuppliedMetadata( 'MySword' ) # Copy some to self.settingsDict
@@ -448,10 +445,6 @@ class MySwordBible( Bible ):
                         self.stashBook( thisBook )
                     #else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Not saving", BBB )
                     break
-
-            if ourGlobals['haveParagraph']:
-                thisBook.addLine( 'p', '' )
-                ourGlobals['haveParagraph'] = False
     # end of MySwordBible.loadBook
 # end of MySwordBible class
 
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index fcb98f1..700c88b 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -947,6 +947,7 @@ class theWordBible( Bible ):
                                     verseList = BOS.getNumVersesList( BBB )
                                     numC, numV = len(verseList), verseList[0]
                                     C = V = 1
+                                    ourGlobals['haveParagraph'] = False # Don't carry a paragraph into the next book
                                     # Don't append c 1 yet, because there might be a book heading to precede it
                                     consecutiveBlankLineCount, hadText = 0, False
                                 else: # next chapter only
-- 
2.43.0

