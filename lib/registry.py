import c_lsp_doc, c_client, c_core, c_zed, c_full
CHECKS = {"L01": c_lsp_doc.L01, "L02": c_lsp_doc.L02, "L03": c_client.L03,
          "S01": c_core.S01, "M01": c_core.M01, "R01": c_core.R01, "R04": c_core.R04, "C04": c_core.C04, "O03": c_full.O03, "O02": c_full.O02,
          "X01": c_zed.X01,
          "F01": c_full.F01, "A03": c_full.A03, "A04": c_full.A04, "F02": c_full.F02, "O01": c_full.O01, "S02": c_full.S02, "S03": c_full.S03, "M02": c_full.M02, "R02": c_full.R02, "R03": c_full.R03}
PACKAGES = ["hlsp", "hclient", "hcore", "hzed", "hfull", "jarl"]
import c_proj
CHECKS.update({"F03": c_proj.F03, "C01": c_proj.C01, "C02": c_proj.C02, "C03": c_proj.C03})
import c_ignore
CHECKS["S04"] = c_ignore.S04
import c_server
CHECKS.update({"L04": c_server.L04, "L05": c_server.L05})
PACKAGES.append("hserver")
import c_editor
CHECKS["L07"] = c_editor.L07
import c_action
CHECKS["L06"] = c_action.L06
import c_package
CHECKS["A02"] = c_package.A02
import c_flow
CHECKS["A01"] = c_flow.A01
import c_vscode
CHECKS["X02"] = c_vscode.X02
