from . import advice, checks, primitive, purity, signatures, arrays, loops, total, inverse, relate, similarity, inputs, writers, bounds
REG = {"C13": advice, "C11": bounds, "C12": bounds, "C17": writers, "C08": inputs, "C16": inputs, "C03": similarity, "C02": relate, "C20": relate, "C01": inverse, "C10": total, "C09": loops, "C18": arrays, "C19": signatures, "C07": purity, "C05": primitive, "C04": checks, "C06": checks}
