"""Independent readers of the XML reference tables (the boring models of the Reference checks)."""
import xml.etree.ElementTree as ET
from pathlib import Path
import lib

def text(el, tag):
    e = el.find(tag)
    return None if e is None else (e.text or "").strip() or None

def book_codes():
    """referenceAbbreviation -> {tag: text} in document order"""
    root = ET.parse(lib.DATA / "BibleBooksCodes.xml").getroot()
    res = {}
    for el in root.iter("BibleBookCodes"):
        res[text(el, "referenceAbbreviation")] = {c.tag: (c.text or "").strip() for c in el}
    return res

def book_orders():
    res = {}
    for f in sorted((lib.DATA / "BookOrders").glob("BibleBookOrder_*.xml")):
        root = ET.parse(f).getroot()
        res[f.stem[len("BibleBookOrder_"):]] = [(int(b.get("id")), b.text.strip()) for b in root.iter("book")]
    return res

def versifications():
    """system -> BBB -> (list of (chapter, numVerses) in order, set of omitted (C,V))"""
    res = {}
    for f in sorted((lib.DATA / "VersificationSystems").glob("BibleVersificationSystem_*.xml")):
        root = ET.parse(f).getroot()
        books = {}
        for el in root.iter("BibleBookVersification"):
            chapters, omitted = [], []
            for nv in el.findall("numVerses"):
                chapters.append((nv.get("chapter"), int(nv.text)))
                if nv.get("omittedVerses"): omitted += [(nv.get("chapter"), v) for v in nv.get("omittedVerses").split(",")]
            books[text(el, "referenceAbbreviation")] = (int(text(el, "numChapters")), chapters, omitted)
        res[f.stem[len("BibleVersificationSystem_"):]] = books
    return res

def book_names():
    """system -> dict(divisions=[(default abbrev, full, short, [inputs])], leaders={std:[inputs]}, books={BBB:(abbr, full, short,[inputs])})"""
    res = {}
    for f in sorted((lib.DATA / "BookNames").glob("BibleBooksNames_*.xml")):
        root = ET.parse(f).getroot()
        books = {}
        for el in root.iter("BibleBookNames"):
            BBB = text(el, "referenceAbbreviation")
            books[BBB] = (text(el, "defaultAbbreviation"), text(el, "defaultName"), [i.text.strip() for i in el.findall("inputAbbreviation")])
        leaders = {}
        for el in root.iter("BibleBooknameLeaders"):
            leaders[text(el, "standardLeader") + " "] = [i.text.strip() + " " for i in el.findall("inputLeader")]
        res[f.stem[len("BibleBooksNames_"):]] = dict(books=books, leaders=leaders)
    return res
