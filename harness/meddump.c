/* Dumps every mesh of a MED file as JSON, through the MED library itself, so
 * that the oracle sees what a consumer of the file would see.
 * usage: meddump file.med... (one JSON document per line and per file) */
#include <med.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static void jstr(const char *s, size_t n) {
    putchar('"');
    for (size_t i = 0; i < n && s[i]; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { putchar('\\'); putchar(c); }
        else if (c < 32 || c > 126) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}

static const struct { const char *name; med_geometry_type code; int nn; } TYPES[] = {
    {"POINT1", MED_POINT1, 1}, {"SEG2", MED_SEG2, 2}, {"SEG3", MED_SEG3, 3}, {"SEG4", MED_SEG4, 4},
    {"TRI3", MED_TRIA3, 3}, {"TRI6", MED_TRIA6, 6}, {"TRI7", MED_TRIA7, 7},
    {"QUAD4", MED_QUAD4, 4}, {"QUAD8", MED_QUAD8, 8}, {"QUAD9", MED_QUAD9, 9},
    {"TETRA4", MED_TETRA4, 4}, {"TETRA10", MED_TETRA10, 10},
    {"HEXA8", MED_HEXA8, 8}, {"HEXA20", MED_HEXA20, 20}, {"HEXA27", MED_HEXA27, 27},
    {"PENTA6", MED_PENTA6, 6}, {"PENTA15", MED_PENTA15, 15}, {"PENTA18", MED_PENTA18, 18},
    {"PYRA5", MED_PYRA5, 5}, {"PYRA13", MED_PYRA13, 13}, {"OCTA12", MED_OCTA12, 12},
};

static int dump(const char *path) {
    med_idt fid = MEDfileOpen(path, MED_ACC_RDONLY);
    if (fid < 0) { printf("{\"error\":\"open\"}\n"); return 1; }
    med_int nmesh = MEDnMesh(fid);
    printf("{\"nmesh\":%d", (int)nmesh);
    for (int im = 1; im <= nmesh && im <= 1; im++) {
        char name[MED_NAME_SIZE + 1] = "", desc[MED_COMMENT_SIZE + 1] = "", dt[MED_SNAME_SIZE + 1] = "";
        char axn[3 * MED_SNAME_SIZE + 1] = "", axu[3 * MED_SNAME_SIZE + 1] = "";
        med_int sd = 0, md = 0, nstep = 0; med_mesh_type mt; med_sorting_type st; med_axis_type at;
        MEDmeshInfo(fid, im, name, &sd, &md, &mt, desc, dt, &st, &nstep, &at, axn, axu);
        printf(",\"name\":"); jstr(name, MED_NAME_SIZE);
        printf(",\"spacedim\":%d,\"meshdim\":%d,\"axistype\":%d", (int)sd, (int)md, (int)at);
        med_bool cc, tt;
        med_int nn = MEDmeshnEntity(fid, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE, MED_COORDINATE,
                                    MED_NO_CMODE, &cc, &tt);
        printf(",\"nnodes\":%d,\"coords\":[", (int)nn);
        if (nn > 0) {
            med_float *c = calloc((size_t)nn * 3, sizeof *c);
            if (MEDmeshNodeCoordinateRd(fid, name, MED_NO_DT, MED_NO_IT, MED_FULL_INTERLACE, c) < 0) {
                printf("]}\n"); return 1;
            }
            for (int i = 0; i < nn; i++) {
                printf("%s[", i ? "," : "");
                for (int k = 0; k < 3; k++) {
                    double v = c[3 * i + k];
                    if (v != v || v > 1e308 || v < -1e308) printf("%s\"%g\"", k ? "," : "", v);
                    else printf("%s%.17g", k ? "," : "", v);
                }
                printf("]");
            }
            free(c);
        }
        printf("],\"numbers\":[");
        if (nn > 0) {
            med_int *num = calloc((size_t)nn, sizeof *num);
            if (MEDmeshEntityNumberRd(fid, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE, num) >= 0)
                for (int i = 0; i < nn; i++) printf("%s%d", i ? "," : "", (int)num[i]);
            free(num);
        }
        printf("],\"nodefam\":[");
        if (nn > 0) {
            med_int nf = MEDmeshnEntity(fid, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE, MED_FAMILY_NUMBER,
                                        MED_NO_CMODE, &cc, &tt);
            if (nf > 0) {
                med_int *num = calloc((size_t)nf, sizeof *num);
                if (MEDmeshEntityFamilyNumberRd(fid, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE, num) >= 0)
                    for (int i = 0; i < nf; i++) printf("%s%d", i ? "," : "", (int)num[i]);
                free(num);
            }
        }
        printf("],\"cells\":{");
        int first = 1;
        for (size_t t = 0; t < sizeof TYPES / sizeof *TYPES; t++) {
            med_int nc = MEDmeshnEntity(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, TYPES[t].code, MED_CONNECTIVITY,
                                        MED_NODAL, &cc, &tt);
            if (nc <= 0) continue;
            int k = TYPES[t].nn;
            med_int *con = calloc((size_t)nc * k, sizeof *con), *num = calloc((size_t)nc, sizeof *num),
                    *fam = calloc((size_t)nc, sizeof *fam);
            if (MEDmeshElementConnectivityRd(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, TYPES[t].code, MED_NODAL,
                                             MED_FULL_INTERLACE, con) < 0) { printf("}}\n"); return 1; }
            int hasnum = MEDmeshEntityNumberRd(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, TYPES[t].code, num) >= 0;
            int hasfam = MEDmeshEntityFamilyNumberRd(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, TYPES[t].code, fam) >= 0;
            printf("%s\"%s\":{\"conn\":[", first ? "" : ",", TYPES[t].name);
            first = 0;
            for (int i = 0; i < nc; i++) {
                printf("%s[", i ? "," : "");
                for (int j = 0; j < k; j++) printf("%s%d", j ? "," : "", (int)con[i * k + j]);
                printf("]");
            }
            printf("],\"num\":[");
            if (hasnum) for (int i = 0; i < nc; i++) printf("%s%d", i ? "," : "", (int)num[i]);
            printf("],\"fam\":[");
            if (hasfam) for (int i = 0; i < nc; i++) printf("%s%d", i ? "," : "", (int)fam[i]);
            printf("]}");
            free(con); free(num); free(fam);
        }
        printf("},\"families\":[");
        med_int nfam = MEDnFamily(fid, name);
        for (int f = 1; f <= nfam; f++) {
            med_int ng = MEDnFamilyGroup(fid, name, f);
            char *gn = calloc((size_t)(ng > 0 ? ng : 0) * MED_LNAME_SIZE + 1, 1);
            char fn[MED_NAME_SIZE + 1] = ""; med_int fnum = 0;
            MEDfamilyInfo(fid, name, f, fn, &fnum, gn);
            printf("%s{\"name\":", f > 1 ? "," : ""); jstr(fn, MED_NAME_SIZE);
            printf(",\"num\":%d,\"groups\":[", (int)fnum);
            for (int g = 0; g < ng; g++) { if (g) putchar(','); jstr(gn + g * MED_LNAME_SIZE, MED_LNAME_SIZE); }
            printf("]}");
            free(gn);
        }
        printf("]");
    }
    printf("}\n");
    MEDfileClose(fid);
    return 0;
}

int main(int argc, char **argv) {
    int rc = 0;
    for (int i = 1; i < argc; i++) rc |= dump(argv[i]);
    return rc;
}
